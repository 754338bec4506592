From 7619f5c41225c8b47dd3e962af9d17cc7fccba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 01/98] fix: open an empty symbol table

Opening an empty table asked the pool for zero bytes, which is refused, so
registerTag(id,...) and registerAttr(id,...) failed on every new document and
no .xbw document could be authored.
---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..b51ff49 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1438,6 +1438,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
+    if (size == 0) // nothing to copy - empty table starts at the end of allocated space
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
                 __FUNCTION__,pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,
-- 
2.43.0


From 59a3a72a34d34fc5d9717d276d7efc638e60fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 02/98] fix: read symbol ids as unsigned bytes

Stored ids of 128 and above were assembled from signed chars, became negative
and made the symbol table drop every symbol from id 128 on.
---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b51ff49..cb6c535 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1246,8 +1246,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = static_cast<uint8_t>(*(p++));
+            id |= static_cast<uint8_t>(*(p++)) << 8;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1318,7 +1318,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (static_cast<uint8_t>(p[1]) << 8);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1356,7 +1356,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (static_cast<uint8_t>(p[1]) << 8);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1400,8 +1400,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = static_cast<uint8_t>(*(p++));
+            id |= static_cast<uint8_t>(*(p++)) << 8;
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From 9dd4d6b1c4f86572e0d1a7373c1373077411b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 03/98] fix: move whole pointers when a document is
 unregistered

memmove was given a count of pointers, not bytes, so closing any document but
the last one corrupted the registry of the documents still open.
---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cb6c535..46a0501 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2964,7 +2964,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i)*sizeof(plugins[0]));
             return true;
         }
     return false;
-- 
2.43.0


From 13072777a32acee58db290641a28065b9beeff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 04/98] fix: update a stored time in its four bytes

tagSetTime stored an 8-byte time_t into a 4-byte value and overwrote the start
of the element allocated behind it.
---
 src/bin_write_plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 46a0501..cc05cd9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -861,8 +861,8 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        uint32_t *tm = reinterpret_cast<uint32_t*>(target+1); // stored in 4 bytes - see BW_pool::tagTime
+        *tm = (uint32_t)value;
     }
     else
     {
-- 
2.43.0


From 7114f491dfebc08c685b7f243d6262ab99edf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 05/98] fix: count alignment when growing the pool

makeSpace ignored the rounding done by allocate()/allocate8(), so an element
that ended within a few bytes of a page boundary was refused (2091) although
the pool still had room to grow.
---
 src/bin_write_plugin.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cc05cd9..8c968f9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1993,7 +1993,10 @@ bool BW_plugin::CheckExistingFile(int file_size)
 
 bool BW_plugin::makeSpace(int size)
 {
-    int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
+    int new_limit = pool->allocator;
+    ROUND64UP(new_limit); // allocate8() aligns start and size
+    ROUND64UP(size);
+    int new_size = ((new_limit+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
     if (new_size <= (int)pool->file_size) return true; // no grow - ok
     if (ftruncate(fd,new_size) < 0)
-- 
2.43.0


From 4103adfaa23c2b9b05b60d0308b0cd9411883f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 06/98] fix: grow the pool for copied attributes

attrData() was the only attribute writer that failed on a full allocation
instead of extending the file.
---
 src/bin_write_plugin.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8c968f9..b09b325 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -620,6 +620,18 @@ BW_element*     BW_element::attrIPv6(int16_t id,const char *value)
     return this;
 }
 
+static BW_element *allocate_element8(BW_pool *pool,int data_size) // aligned element with data, pool is extended on demand
+{
+    char *result = pool->allocate8(sizeof(BW_element)+data_size);
+    if (result == nullptr) // need makeSpace
+    {
+        BW_plugin *plugin = plugins.getPlugin(pool);
+        if (plugin == nullptr || !plugin->makeSpace(sizeof(BW_element)+data_size)) return nullptr;
+        result = pool->allocate8(sizeof(BW_element)+data_size);
+    }
+    return reinterpret_cast<BW_element*>(result);
+}
+
 BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
 {
     if (THIS_IS_NULL) return nullptr;
@@ -637,7 +649,7 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
         ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
         int target_data_size = p - buffer;
 
-        BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
+        BW_element* attr      = allocate_element8(pool,target_data_size);
         ASSERT_NO_RET_NULL(1996,attr != nullptr);
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
@@ -650,7 +662,7 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     {
         ASSERT_NO_RET_NULL(1992,attr_type == data.type);
 
-        BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+        BW_element* attr      = allocate_element8(pool,data.size);
         ASSERT_NO_RET_NULL(1993,attr != nullptr);
 
         attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
-- 
2.43.0


From a23d79b13a660d51e5ecdbc0226fc6394850666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 07/98] fix: reopen a document whose growth was interrupted

The file is extended before its new size is recorded in the header. A writer
killed between the two, or a reader opening at that moment, found a size
mismatch and the document could never be opened again.
---
 src/bin_write_plugin.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b09b325..9c4ede2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1975,9 +1975,16 @@ bool BW_plugin::CheckExistingFile(int file_size)
 {
     ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
-    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size == file_size);
+    if ((int)pool->file_size > file_size) // writer extended file after it's size was read
+    {
+        struct stat statbuf;
+        ASSERT_NO_RET_FALSE(1939,fstat(fd,&statbuf) == 0);
+        file_size = (int)statbuf.st_size;
+    }
+// file is extended first and size is stored later - file can be larger when writer is (or was interrupted) between
+    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size <= file_size);
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
-    ASSERT_NO_RET_FALSE(1945,pool->allocator_limit == (int)pool->file_size);
+    ASSERT_NO_RET_FALSE(1945,pool->allocator_limit <= (int)pool->file_size);
     ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
     ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
 
@@ -2010,7 +2017,11 @@ bool BW_plugin::makeSpace(int size)
     ROUND64UP(size);
     int new_size = ((new_limit+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
-    if (new_size <= (int)pool->file_size) return true; // no grow - ok
+    if (new_size <= (int)pool->file_size) // no grow - ok
+    {
+        pool->allocator_limit = pool->file_size; // differs only after interrupted grow
+        return true;
+    }
     if (ftruncate(fd,new_size) < 0)
     {
         ERRNO_SHOW(1144,"ftruncate",filename);
-- 
2.43.0


From b773e3b7227d18f1f42cee1a7187084f98954b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 08/98] fix: reopen a document whose creation was interrupted

A writer killed while it initialised an empty (or recreated) document left a
file that was refused forever. The header's size is written last, so zero there
marks a file that was never finished.
---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 9c4ede2..b6901ee 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1892,6 +1892,7 @@ bool BW_plugin::Initialize()
             return false;
         }
         if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
+        if (file_size != 0 && pool->size == 0) file_size = 0; // interrupted before initialization was finished
         ASSERT_NO_RET_FALSE(1948,file_size == 0 || (int)pool->mmap_size >= file_size); // must be allocated for whole size
         if (file_size == 0) break; // was empty -> OK
         if ((int)pool->mmap_size == max_pool_size) break; // correct size
@@ -1945,7 +1946,7 @@ bool BW_plugin::InitEmptyFile()
 {
 // setFileSize?? --> this function can be called at differrent situations
     ASSERT_NO_RET_FALSE(1104,fd >= 0);
-    if (ftruncate(fd,BW2_INITIAL_FILE_SIZE) < 0)
+    if (ftruncate(fd,0) < 0 || ftruncate(fd,BW2_INITIAL_FILE_SIZE) < 0) // all content is forgotten first
     {
         ERRNO_SHOW(1105,"ftruncate",filename);
         return false;
-- 
2.43.0


From ea14777ff223492be972721f2f4269ccdd64be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 09/98] fix: keep lists usable after an interrupted add or
 remove

A writer killed inside join() or remove() left a prev link that no longer
matched the ring. The next add then linked its element behind one that is not
in the list, so it and every later one were lost, and backward iteration could
loop forever. Publish with the next link, update prev last, and check it before
it is relied on.
---
 src/bin_write_plugin.cpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index b6901ee..ac4b3d3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -100,6 +100,17 @@ char*       BW_element::BWD()
     return reinterpret_cast<char*>(this+1);
 }
 
+static BW_element *previous_element(BW_element *element)
+// prev reference is updated after next reference, so it can be obsolete when writer was interrupted between
+{
+    BW_element *prev = element->BWE(element->prev);
+    if (prev->next == element->offset && prev->BWE(prev->prev)->next == prev->offset) return prev; // OK
+
+    for(prev = element;prev->next != element->offset;) 
+        prev = prev->BWE(prev->next);
+    return prev;
+}
+
 BW_element* BW_element::join(BW_element *B)    // this will connect two circles
 // Input:
 // A0-A1-A2-A3-A4-A5...An-A0
@@ -111,19 +122,18 @@ BW_element* BW_element::join(BW_element *B)    // this will connect two circles
     assert(this != nullptr);
     assert(B != nullptr);
 
-    int A_prev_offset = this->prev;
-    int B_prev_offset = B->prev;
-
-    ASSERT_NO_RET_NULL(2092,A_prev_offset != 0);
-    ASSERT_NO_RET_NULL(2093,B_prev_offset != 0);
+    ASSERT_NO_RET_NULL(2092,this->prev != 0);
+    ASSERT_NO_RET_NULL(2093,B->prev != 0);
     ASSERT_NO_RET_NULL(2094,this->offset != 0);
     ASSERT_NO_RET_NULL(2095,B->offset != 0);
 
-    this->prev = B_prev_offset;
+    int A_prev_offset = previous_element(this)->offset;
+    int B_prev_offset = previous_element(B)->offset;
+
     B->prev = A_prev_offset;
-    
     BWE(B_prev_offset)->next = this->offset;
-    BWE(A_prev_offset)->next = B->offset;
+    BWE(A_prev_offset)->next = B->offset; // B is visible now
+    this->prev = B_prev_offset;
     return this;
 }
 
@@ -147,15 +157,16 @@ BW_element* BW_element::remove(BW_element *tag)
 
     BW_offset_t *list = (tag->flags & BIN_WRITE_ELEMENT_FLAG) ? &first_child : &first_attribute;
     if (*list == 0) return this; // empty list - cannot find
+    BW_element *prev = previous_element(tag);
     if (*list == tag->offset)
     {
-        if (tag->next == tag->offset && tag->prev == tag->offset)
+        if (tag->next == tag->offset)
             *list = 0; // removing last element -> empty
         else
             *list = tag->next;
     }
-    BWE(tag->prev)->next = tag->next;
-    BWE(tag->next)->prev = tag->prev;
+    prev->next = tag->next;
+    BWE(tag->next)->prev = prev->offset;
     tag->next = tag->prev = tag->offset;
     tag->flags |= BIN_DELETED;
     return this;
@@ -727,11 +738,11 @@ BW_element*  BW_element::PrevChild(BW_offset_t &offset)
             return nullptr; // empty list
 
         BW_element *first = BWE(first_child); // current element, need next
-        return BWE(offset = first->prev); // first child
+        return BWE(offset = previous_element(first)->offset); // first child
     }   
     if (offset == first_child) return nullptr;
     BW_element *element = BWE(offset); // current element, need next
-    return BWE(offset = element->prev); // first child
+    return BWE(offset = previous_element(element)->offset); // first child
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 81b34953ca839c867316acb2bda278945610cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 10/98] fix: replace the only or the first element of a list

Replacing the only element left the new one pointing to the old one, so every
traversal of the list looped forever; interrupted replacing of the first one
lost or looped the whole list; a replacement that could not be allocated was
dereferenced.
---
 src/bin_write_plugin.cpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ac4b3d3..f3aff90 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -176,25 +176,44 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
 {
     if (THIS_IS_NULL) return nullptr; // no where to add
     if (old_value == nullptr) return nullptr; // failure
+    if (new_value == nullptr) return nullptr; // failure - nothing to replace with
 
     ASSERT_NO_RET_NULL(2016,new_value->next == new_value->offset);
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    BW_offset_t *list = (old_value->flags & BIN_WRITE_ELEMENT_FLAG) ? &first_child : &first_attribute;
+
+    if (old_value->next == old_value->offset) // the only one
+    {
+        if (*list == old_value->offset)
+            *list = new_value->offset;
+    }
+    else
+    {
+        BW_element *prev = previous_element(old_value);
+
+        new_value->next = old_value->next;
+        if (*list == old_value->offset) // list must be complete in every moment, so new value is visible before first one disappears
+        {
+            new_value->prev = old_value->offset;
+            old_value->next = new_value->offset;
+            BWE(new_value->next)->prev = new_value->offset;
+            *list = new_value->offset;
+            prev->next = new_value->offset;
+            new_value->prev = prev->offset;
+        }
+        else
+        {
+            new_value->prev = prev->offset;
+            prev->next = new_value->offset;
+            BWE(new_value->next)->prev = new_value->offset;
+        }
+    }
 
-    BWE(new_value->next)->prev = new_value->offset;
-    BWE(new_value->prev)->next = new_value->offset;
-    
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
 
-    if (first_child == old_value->offset)
-        first_child = new_value->offset;
-    if (first_attribute == old_value->offset)
-        first_attribute = new_value->offset;
-
     return this;
 }
 
-- 
2.43.0


From 642b8bb9ec0d283e1860c5d4060e546965a25d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 11/98] fix: return the element in the document from tagSet*

When the value had to be replaced, the removed element was returned (and a
failed replacement was not reported), so the caller went on with an element
that is not in the document any more.
---
 src/bin_write_plugin.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index f3aff90..3799c66 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -828,7 +828,8 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            target = new_item;
         }
          
     }
@@ -856,7 +857,8 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            target = new_item;
         }
          
     }
@@ -889,7 +891,8 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
-            replace(target,new_item);
+            if (replace(target,new_item) == nullptr) return nullptr;
+            target = new_item;
         }
          
     }
-- 
2.43.0


From a9ef6fc607b3233d76257c6141ec8855e16231f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 12/98] fix: accept a null text or digest where it means an
 empty one

The length was computed for a null value and then the null pointer was copied
or compared anyway.
---
 src/bin_write_plugin.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3799c66..26d17b9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -884,7 +884,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1080,7 +1080,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
-    if (strcmp(data_ref.content,value) == 0) return false; // no change
+    if (strcmp(data_ref.content,value != nullptr ? value : "") == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
 
@@ -1800,7 +1800,7 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    strcpy(reinterpret_cast<char*>(result+1),value != nullptr ? value : "");
     return result;
 }
 
@@ -1826,7 +1826,8 @@ BW_element* BW_pool::tagSHA1(int16_t id,const uint8_t *value)
     
     result->init(this,id,XBT_SHA1,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,value,20);
+    if (value != nullptr)
+        memcpy(result+1,value,20); // zeros otherwise - see tagSetSHA1
     return result;
 }
 
-- 
2.43.0


From 2cae46bc492c226a728fd51a33281aea8474e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 13/98] fix: keep the old text when a longer one cannot be
 allocated

setStr() removed the element first and then dereferenced the null pointer of
the allocation that failed.
---
 src/bin_write_plugin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 26d17b9..ce5db8e 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1094,15 +1094,15 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     else // must reallocate and it is not so easy
     {
         // remove and add
+        BW_element *new_value = W->tagStr(identification,value);
+        ASSERT_NO_RET_FALSE(10437,new_value != nullptr); // not enough space - old value stays
+
         BW_offset_t _first_attribute = first_attribute;
         first_attribute = 0; // disconnect children
 
         parent->remove(this);
-
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
         new_value->first_attribute = _first_attribute;
+        parent->add(new_value);
     }
     return true;
 }
-- 
2.43.0


From 448bffb3789c8e749bbe55bc61af699d14582ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 14/98] fix: keep the children of an element whose text is
 reallocated

setStr() moved only the attributes to the new element.
---
 src/bin_write_plugin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ce5db8e..ca2c3e4 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1098,10 +1098,12 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         ASSERT_NO_RET_FALSE(10437,new_value != nullptr); // not enough space - old value stays
 
         BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
+        BW_offset_t _first_child = first_child;
+        first_attribute = first_child = 0; // disconnect children
 
         parent->remove(this);
         new_value->first_attribute = _first_attribute;
+        new_value->first_child = _first_child;
         parent->add(new_value);
     }
     return true;
-- 
2.43.0


From 1a4eaf44d02749978d9408e0840cebc5042d3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 15/98] fix: keep attributes and children when tagSet* replaces
 the value

---
 src/bin_write_plugin.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ca2c3e4..dfa415f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -828,6 +828,9 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
+            if (new_item == nullptr) return nullptr;
+            new_item->first_attribute = target->first_attribute; // only value is changed
+            new_item->first_child = target->first_child;
             if (replace(target,new_item) == nullptr) return nullptr;
             target = new_item;
         }
@@ -857,6 +860,9 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
+            if (new_item == nullptr) return nullptr;
+            new_item->first_attribute = target->first_attribute; // only value is changed
+            new_item->first_child = target->first_child;
             if (replace(target,new_item) == nullptr) return nullptr;
             target = new_item;
         }
@@ -891,6 +897,9 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
+            if (new_item == nullptr) return nullptr;
+            new_item->first_attribute = target->first_attribute; // only value is changed
+            new_item->first_child = target->first_child;
             if (replace(target,new_item) == nullptr) return nullptr;
             target = new_item;
         }
-- 
2.43.0


From 790f2df9fe52f8f4515e800c6588a0c57f2e41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 16/98] fix: report failed registrations also when symbol
 tables are rebuilt

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index dfa415f..9db79b8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2324,7 +2324,7 @@ bool BW_plugin::allRegistered()
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-    return true;
+    return (check_failures == 0);
 }
 
 void BW_plugin::setRoot(const BW_element* X)
-- 
2.43.0


From ec68fbb5db221d9a899051665a293f793bd784c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 17/98] fix: release file and mapping of a failed Initialize

---
 src/bin_write_plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 9db79b8..ecf2a4a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1898,6 +1898,7 @@ bool BW_plugin::Initialize()
 {
     if (initialized) return true; // no double initialize!!
     ASSERT_NO_RET_FALSE(1952,filename != nullptr);
+    Finalize(); // release remains of unsuccessful attempt
 
 // BW_plugin is owner and the only one (for now) writer of mapped file
 
@@ -1934,6 +1935,7 @@ bool BW_plugin::Initialize()
         if (pool == MAP_FAILED)
         {
             ERRNO_SHOW(1049,"mmap",filename);
+            pool = nullptr;
             return false;
         }
         if (file_size < (int)sizeof(*pool)) file_size = 0; // too small - deleting
-- 
2.43.0


From 88ff128c12f43c0469029df00cc70de5a0329cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 18/98] fix: fail instead of touching an empty mapping when a
 document cannot be created

---
 src/bin_write_plugin.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ecf2a4a..947f3f5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1958,7 +1958,13 @@ bool BW_plugin::Initialize()
 // There are 2 situations - file is empty and I want to create and write ... simple one
 //                        - file is somehow populated, it must be fully compatibale, or I must fail
     if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW || file_size == 0)
-        ASSERT_NO_RET_FALSE(1101,InitEmptyFile());
+    {
+        if (!InitEmptyFile()) // reported there - mapping of empty file cannot be touched here
+        {
+            Finalize();
+            return false;
+        }
+    }
     else
         ASSERT_NO_RET_FALSE(1102,CheckExistingFile(file_size));
 
-- 
2.43.0


From 3739ec76ba6d616cd7a9633956e9feb71b29694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 19/98] fix: report a subtree copy that is not complete

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 947f3f5..cfb24b7 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2847,6 +2847,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
         XML_Item *child = src->getChildByIndex(i);
         XML_Binary_Data_Ref data = child->getData();
         BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        if (child2 == nullptr) return nullptr; // reported there
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From 5f5526bf11a9b103776d84fbd34c718e007bd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 20/98] fix: ForAllParams on an element without attributes

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cfb24b7..1e2d63b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2938,6 +2938,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From f4ea9430aec1f437d324d2d5a72cac21a0fe9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 21/98] fix: open a document while its writer extends it

---
 src/bin_write_plugin.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1e2d63b..0b546d8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2029,18 +2029,23 @@ bool BW_plugin::CheckExistingFile(int file_size)
 {
     ASSERT_NO_RET_FALSE(1953,strcmp(pool->binary_xml_write_type_info,"binary_xml.pksoft.org") == 0);
     ASSERT_NO_RET_FALSE(1954,pool->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION);
-    if ((int)pool->file_size > file_size) // writer extended file after it's size was read
+// writer can extend document in the meantime - values are read in opposite order than they are updated, so every next one covers previous
+    const volatile BW_pool *live = pool;
+    BW_offset_t allocator = live->allocator;
+    BW_offset_t allocator_limit = live->allocator_limit;
+    int pool_file_size = (int)live->file_size;
+    if (pool_file_size > file_size) // writer extended file after it's size was read
     {
         struct stat statbuf;
         ASSERT_NO_RET_FALSE(1939,fstat(fd,&statbuf) == 0);
         file_size = (int)statbuf.st_size;
     }
 // file is extended first and size is stored later - file can be larger when writer is (or was interrupted) between
-    ASSERT_NO_RET_FALSE(1943,(int)pool->file_size <= file_size);
+    ASSERT_NO_RET_FALSE(1943,pool_file_size <= file_size);
     ASSERT_NO_RET_FALSE(1944,(int)pool->mmap_size == max_pool_size); // !! must be the same !!
-    ASSERT_NO_RET_FALSE(1945,pool->allocator_limit <= (int)pool->file_size);
-    ASSERT_NO_RET_FALSE(1946,pool->allocator >= (int)sizeof(*pool));
-    ASSERT_NO_RET_FALSE(1947,pool->allocator <= pool->allocator_limit);
+    ASSERT_NO_RET_FALSE(1945,allocator_limit <= pool_file_size);
+    ASSERT_NO_RET_FALSE(1946,allocator >= (int)sizeof(*pool));
+    ASSERT_NO_RET_FALSE(1947,allocator <= allocator_limit);
 
     this->check_only = true;
     this->check_failures = 0;
-- 
2.43.0


From 9db44ac3f1d6e6f2c3585ecc8fc521c1b99b3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 22/98] fix: registerTag with id reports success

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0b546d8..3384b35 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2138,6 +2138,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
+    size -= sizeof(int16_t)+sizeof(XML_Binary_Type_Stored); // dst is already behind id and type
     ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
-- 
2.43.0


From c2f2b975063f989c0fca92b002221994f60569e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 23/98] fix: clear a document with names stored in any order

---
 src/bin_write_plugin.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 3384b35..ddd1b1e 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2400,7 +2400,6 @@ bool BW_plugin::Clear()
 // I will clear all data - only symbol table will remain
 {
     ASSERT_NO_RET_FALSE(1178,pool != nullptr);
-    pool->root = 0; // forget data
 
     // this is original situation
     int tags_size = pool->tags.getNamesSize(pool);
@@ -2408,30 +2407,16 @@ bool BW_plugin::Clear()
     char *tags_src = (char*)BWE(pool->tags.names_offset);
     char *params_src = (char*)BWE(pool->params.names_offset);
 
-    // this is requested situation
-    char *tags_dst = reinterpret_cast<char*>(pool+1);
-    char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
-    // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    // names can be stored in any order and new places can overlap old ones, so both are moved through copy
+    char *names = reinterpret_cast<char*>(malloc(tags_size+params_size+1));
+    ASSERT_NO_RET_FALSE(2103,names != nullptr);
+    memcpy(names,tags_src,tags_size);
+    memcpy(names+tags_size,params_src,params_size);
+
+    pool->root = 0; // forget data
+    memcpy(reinterpret_cast<char*>(pool+1),names,tags_size+params_size);
+    free(names);
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
-- 
2.43.0


From 8de6384ae464b4cc6ab2cb28bb8a5b5da7d49a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 24/98] fix: grow the document for registered names

---
 src/bin_write_plugin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ddd1b1e..7e32992 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2112,6 +2112,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(2146,makeSpace(pool->tags.getNamesSize(pool)+strlen(name)+16)); // whole table can be moved by Open()
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2122,13 +2123,13 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->tags.max_id,id);
     int len = strlen(name);
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
+    MAXIMIZE(pool->tags.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2162,6 +2163,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(2147,makeSpace(pool->params.getNamesSize(pool)+strlen(name)+16));
     ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
 
 // elements must be defined first, empty element are not allowed!
@@ -2172,12 +2174,12 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->params.names_offset == 0)
         pool->params.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->params.max_id,id);
     int len = strlen(name);
 
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
+    MAXIMIZE(pool->params.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2211,6 +2213,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
             return static_cast<XML_Tag_Names>(id);
         }
     }
+    ASSERT_NO_RET_(2148,makeSpace(pool->tags.getNamesSize(pool)+strlen(name)+16),XTNR_NULL);
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
     int len = strlen(name);
@@ -2257,6 +2260,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
 // must be opened
+    ASSERT_NO_RET_(2149,makeSpace(pool->params.getNamesSize(pool)+strlen(name)+16),XPNR_NULL);
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
     int len = strlen(name);
-- 
2.43.0


From 6d07e6c7660be8f02140b34a175e3267a2045197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 25/98] fix: count a registered name after it is stored

---
 src/bin_write_plugin.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7e32992..89ac869 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2129,7 +2129,6 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
-    MAXIMIZE(pool->tags.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2138,6 +2137,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     dst += sizeof(XML_Binary_Type_Stored);
 // name
     strcpy(dst,name);
+    MAXIMIZE(pool->tags.max_id,id);
     ROUND32UP(size);
     size -= sizeof(int16_t)+sizeof(XML_Binary_Type_Stored); // dst is already behind id and type
     ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
@@ -2179,7 +2179,6 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
-    MAXIMIZE(pool->params.max_id,id);
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2188,6 +2187,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     dst += sizeof(XML_Binary_Type_Stored);
 // name
     strcpy(dst,name);
+    MAXIMIZE(pool->params.max_id,id);
     return true;
 }
 
@@ -2219,7 +2219,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
     int len = strlen(name);
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_(1972,dst != 0,XTNR_NULL);
-    id = ++pool->tags.max_id;
+    id = pool->tags.max_id+1;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2228,6 +2228,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
     dst += sizeof(XML_Binary_Type_Stored);
 // name
     strcpy(dst,name);
+    pool->tags.max_id = id; // valid from now
     return static_cast<XML_Tag_Names>(id);
 }
 
@@ -2267,7 +2268,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_(1973,dst != 0,XPNR_NULL);
-    id = ++pool->params.max_id;
+    id = pool->params.max_id+1;
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2276,6 +2277,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
     dst += sizeof(XML_Binary_Type_Stored);
 // name
     strcpy(dst,name);
+    pool->params.max_id = id; // valid from now
     return static_cast<XML_Param_Names>(id);
 }
 
-- 
2.43.0


From 32a6e7c8239255cd02230bca2f441c059ec23483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 26/98] fix: size the conversion buffer by the content, not by
 four times the source file

---
 include/binary_xml/bin_xml_creator.h |  3 ++
 src/bin_xml_creator.cpp              | 63 ++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..d300b60 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -90,6 +90,7 @@ protected:
 
     char        *data;
     int32_t     data_size_allocated;
+    int64_t     data_size_needed;   // upper bound of space for all elements counted by FirstPassEvent
 
 // 1st pass to enumerate paramcount
     int     total_node_count;
@@ -113,6 +114,8 @@ public:
         bool MakeSymbolTable();
     bool Append(void *element);
 protected:
+        static int64_t getStoredSizeLimit(XML_Binary_Type type,const char *value);
+        bool AllocateData();
         static void FirstPassEvent(void *element,void *userdata,int deep);
 
         static void FirstPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..4c1157f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -375,6 +375,7 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -394,15 +395,14 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    // names and head of document
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            this->data_size_needed += sizeof(relative_ptr_t)+sizeof(XML_Binary_Type_Stored)+strlen(symbol_table[t][i])+1;
+    this->data_size_needed += strlen(src->getFilename())+1;
+    if (!AllocateData()) return false;
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
-    if (this->data == nullptr)
-    {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
-        return false;
-    }
     this->dst_file_size = FillData();
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
@@ -494,6 +494,27 @@ bool Bin_xml_creator::MakeSymbolTable()
     return true;
 }
 
+bool Bin_xml_creator::AllocateData()
+// data will be large enough for data_size_needed bytes
+{
+    const int64_t size = 1024 + this->data_size_needed; // some reserve
+    if (this->data != nullptr && size <= this->data_size_allocated) return true;
+    if (size > INT32_MAX)
+    {
+        std::cerr << "error: document is too large (" << size << "B)\n";
+        return false;
+    }
+    free(this->data);
+    this->data = reinterpret_cast<char *>(malloc(size));
+    if (this->data == nullptr)
+    {
+        std::cerr << "error: " << strerror(errno) << " while malloc(" << size << ")\n";
+        return false;
+    }
+    this->data_size_allocated = size;
+    return true;
+}
+
 bool Bin_xml_creator::Append(void *element)
 {
     if (dst_file == -1)
@@ -516,6 +537,10 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+    this->data_size_needed = 0;
+    src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    if (!AllocateData()) return false;
+
     char *wp = data+file_align;
     AA(wp);
     this->WriteNode(&wp,element);
@@ -531,11 +556,32 @@ bool Bin_xml_creator::Append(void *element)
     return true;
 }
 
+int64_t Bin_xml_creator::getStoredSizeLimit(XML_Binary_Type type,const char *value)
+// upper bound of space occupied by value with it's alignment
+// type is XBT_UNKNOWN when value is text, it can be stored as any detected type
+{
+    const int64_t fixed_size = 40; // the largest fixed size type + size of variable data + alignment
+    if (value == nullptr) return fixed_size;
+    if (type == XBT_UNKNOWN || type == XBT_STRING) return fixed_size + strlen(value);
+    if (!XBT_IS_VARSIZE(type)) return fixed_size;
+    AA(value);
+    return fixed_size + *reinterpret_cast<const int32_t*>(value);
+}
+
 void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
 {
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    const char *value = _this->src->getNodeBinValue(element,type,size);
+    if (type == XBT_UNKNOWN)
+        value = _this->src->getNodeValue(element);
+    _this->data_size_needed += sizeof(XML_Item)+sizeof(relative_ptr_t)+1/*type*/+3/*align*/;
+    _this->data_size_needed += getStoredSizeLimit(type == XBT_UNKNOWN ? type : XBT_NULL,value) + size;
+
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
     
@@ -545,12 +591,14 @@ void Bin_xml_creator::FirstPassBinParamEvent(const char *param_name,int param_id
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->data_size_needed += sizeof(XML_Param_Description) + getStoredSizeLimit(type,param_value);
 }
 
 void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->data_size_needed += sizeof(XML_Param_Description) + getStoredSizeLimit(XBT_UNKNOWN,param_value);
 }
 
 void Bin_xml_creator::SecondPassEvent(void *element,void *userdata,int deep)
@@ -596,6 +644,7 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 0;
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From 3aa27fd577bee4b49dd0fcac1583a9359b3d1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 27/98] fix: a conversion or append that cannot store a name or
 value fails

---
 include/binary_xml/bin_xml_creator.h |  2 ++
 src/bin_xml_creator.cpp              | 36 ++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index d300b60..b16dd87 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -101,6 +101,8 @@ protected:
     int                     symbol_count[SYMBOL_TABLES_COUNT];
 // incremental addition
     int     dst_file;
+// some element or attribute cannot be stored
+    bool    write_failed;
 public:
     Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
     Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 4c1157f..5867097 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -403,7 +403,9 @@ bool Bin_xml_creator::Make_xb()
     if (!AllocateData()) return false;
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
+    this->write_failed = false;
     this->dst_file_size = FillData();
+    if (this->write_failed) return false;
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
     {
@@ -543,7 +545,9 @@ bool Bin_xml_creator::Append(void *element)
 
     char *wp = data+file_align;
     AA(wp);
+    this->write_failed = false;
     this->WriteNode(&wp,element);
+    if (this->write_failed) return false;
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
@@ -871,7 +875,13 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
     
 //std::cout << /*(void*)(X)*/ (_x-data) << " " << element->name;
 
-    X->name = Find(src->getNodeName(element),SYMBOL_TABLE_NODES);
+    const char *node_name = src->getNodeName(element);
+    X->name = Find(node_name,SYMBOL_TABLE_NODES);
+    if (node_name != nullptr && X->name == XTNR_NULL)
+    {
+        LOG_ERROR("[A2150] Name <%s> is not in symbol table",node_name);
+        write_failed = true;
+    }
 
     X->paramcount = 0;  // count - how many symbols are stored here?
     if (!src->ForAllBinParams(XCountBinParamsEvent,element,X))
@@ -902,7 +912,11 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
         else
         {
             *((*_wp)++) = type;
-            ASSERT_NO_RET_NULL(1201,XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated)); // copy of value
+            if (!XBT_Copy(bin_value,type,size,_wp,data+data_size_allocated)) // copy of value
+            {
+                LOG_ERROR("[A1201] value of <%s> cannot be stored",node_name);
+                write_failed = true;
+            }
         }
     }
     else
@@ -917,7 +931,7 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
             if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
             {   
                 LOG_ERROR("[A1202] XBT_FromString(%s,%s,...) failed",value,XML_BINARY_TYPE_NAMES[type]);
-                return nullptr;
+                write_failed = true;
             }
         }
     }
@@ -953,6 +967,11 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
 //    int name_id = 
         xstore_data->params->name = 
         xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (param_name != nullptr && xstore_data->params->name == XPNR_NULL)
+    {
+        LOG_ERROR("[A2151] Name of attribute '%s' is not in symbol table",param_name);
+        xstore_data->creator->write_failed = true;
+    }
 
     if (param_value == nullptr || type == XBT_NULL)
     {
@@ -995,7 +1014,11 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         LOG("-- Storing %s : time64 %s to pointer %p -> %p-%p ... offset=%d",
             param_name,XBT_ToString(type,param_value),param_value,*xstore_data->_wp,xstore_data->_x,xstore_data->params->data);
 */
-    ASSERT_NO_DO_NOTHING(1206,XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated));
+    if (!XBT_Copy(param_value,type,content_size,xstore_data->_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    {
+        LOG_ERROR("[A1206] value of attribute '%s' cannot be stored",param_name);
+        xstore_data->creator->write_failed = true;
+    }
     xstore_data->params++;
 }
 
@@ -1005,6 +1028,11 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
     int name_id = 
         xstore_data->params->name = 
             xstore_data->creator->Find(param_name,SYMBOL_TABLE_PARAMS);
+    if (param_name != nullptr && name_id == XPNR_NULL)
+    {
+        LOG_ERROR("[A2152] Name of attribute '%s' is not in symbol table",param_name);
+        xstore_data->creator->write_failed = true;
+    }
 
     if (param_value == nullptr || *param_value == '\0')
     {
-- 
2.43.0


From 6d08d3a74af6444fb0996e401e78158e2e4323c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 28/98] fix: reserved names of a live document keep their
 identifiers in conversion

---
 src/bin_xml_creator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 5867097..bcea64b 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1346,6 +1346,14 @@ int Bin_xml_creator::Find(const char *symbol,const int t)
         else
             B = M+1;
     }
+// names reserved by library have their own identifiers and are not in the table
+    const int first = (t == SYMBOL_TABLE_NODES ? (int)XTNR_TRANSACTION : (int)XPNR_NAME);
+    const int last = (t == SYMBOL_TABLE_NODES ? (int)XTNR_LAST : (int)XPNR_LAST);
+    for(int id = first;id > last;id--)
+    {
+        const char *name = (t == SYMBOL_TABLE_NODES ? XTNR2str(id) : XPNR2str(id));
+        if (name != nullptr && strcmp(symbol,name) == 0) return id;
+    }
     return -1; // not found
 }
 
-- 
2.43.0


From 37a3c02c3c4f04951bb09f0bb97bec18a473f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 29/98] fix: text that only looks like a typed value is
 converted as text

---
 src/bin_xml_creator.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index bcea64b..0312aeb 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -927,11 +927,18 @@ const char *Bin_xml_creator::WriteNode(char **_wp,void *element)
         else
         {
             type = XBT_Detect(value);
+            char *value_wp = *_wp; // here will be type and value
             *((*_wp)++) = type;
             if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
-            {   
-                LOG_ERROR("[A1202] XBT_FromString(%s,%s,...) failed",value,XML_BINARY_TYPE_NAMES[type]);
-                write_failed = true;
+            { // looks like the type, but it is not valid value of it -> keep it as text
+                type = XBT_STRING;
+                *_wp = value_wp;
+                *((*_wp)++) = type;
+                if (!XBT_FromString(value,type,_wp,data+data_size_allocated))
+                {
+                    LOG_ERROR("[A1202] XBT_FromString(%s,%s,...) failed",value,XML_BINARY_TYPE_NAMES[type]);
+                    write_failed = true;
+                }
             }
         }
     }
-- 
2.43.0


From da4b433837bb1403e5b8de9baf7df88e1d9aa100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 30/98] fix: text attributes of a live document are converted
 whole

---
 src/bin_xml_creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 0312aeb..77055e2 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -994,13 +994,15 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
         AA(param_value);
         content_size = *reinterpret_cast<const int32_t*>(param_value);
     }
+    else if (type == XBT_STRING)
+        content_size = strlen(param_value);
     else
     {
         int size = XBT_Size2(type,0); // empty size of type
         char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
         // bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
         
-        if (type != XBT_STRING && size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+        if (size <= 4 && XBT_Copy(param_value,type,0/*size*/,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
         { // store parameter value directly to params.data
             ASSERT_NO_DO_NOTHING(1207,in_place_wp == reinterpret_cast<char*>(&xstore_data->params->data) + 4);
             xstore_data->params->type = type;
-- 
2.43.0


From 00b6f56a299945d5d603ff8660bda833d1ea2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 31/98] fix: reserved text of a live document is converted with
 all its space

---
 src/bin_write_plugin.cpp | 2 +-
 src/bin_xml_types.cpp    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 89ac869..e3cdf91 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2877,7 +2877,7 @@ const char *BW_plugin::getNodeBinValue(void *element,XML_Binary_Type &type,int &
     BW_element *E = reinterpret_cast<BW_element*>(element);
     type = static_cast<XML_Binary_Type>(E->value_type);
     
-    if (type == XBT_BLOB || type == XBT_HEX)
+    if (type == XBT_BLOB || type == XBT_HEX || type == XBT_BLOB_STRING)
         size = *reinterpret_cast<int32_t*>(E+1);
     else if (type == XBT_STRING)
         size = strlen(reinterpret_cast<char*>(E+1));
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..f53a16b 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -438,7 +438,8 @@ int XBT_Align(XML_Binary_Type type)
 
 bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
 {
-    int value_size = XBT_Size2(type,size);
+    // size of BLOB_STRING is the whole reserved space, it is already rounded
+    int value_size = (type == XBT_BLOB_STRING ? (int)sizeof(int32_t)+size : XBT_Size2(type,size));
     int align_size = XBT_Align(type);
     if (limit - *_wp < value_size + align_size) 
     {
-- 
2.43.0


From 826a937208f407754c20f23f3426b6eac9526178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 32/98] fix: a conversion that cannot write its file fails, a
 short write continues

---
 include/binary_xml/bin_xml_creator.h |  2 ++
 src/bin_xml_creator.cpp              | 51 +++++++++++++++++-----------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index b16dd87..3ce7c8f 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -118,6 +118,8 @@ public:
 protected:
         static int64_t getStoredSizeLimit(XML_Binary_Type type,const char *value);
         bool AllocateData();
+        bool WriteFile();
+        bool WriteData(int file,const char *src,int size);
         static void FirstPassEvent(void *element,void *userdata,int deep);
 
         static void FirstPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 77055e2..adf1c03 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -408,25 +408,19 @@ bool Bin_xml_creator::Make_xb()
     if (this->write_failed) return false;
 #ifndef NDEBUG
     // 4. write intermediate uncompressed results to file------
-    {
-        int dst_file = creat(dst,0644);
-        if (dst_file == -1)
-        {
-            std::cerr << "error: " << strerror(errno) << " while creat(" << dst << ")\n";
-            return false;
-        }
-        AA(dst_file_size);
-        int written = write(dst_file,data,dst_file_size);
-        assert(written == dst_file_size);
-
-        close(dst_file);
-    }
+    if (!WriteFile()) return false;
 #endif
 
     this->dst_file_size = Pack();
 
 
     // 5. write to file------------------------------
+    return WriteFile();
+}
+
+bool Bin_xml_creator::WriteFile()
+// whole content of data will be stored into dst
+{
     int dst_file = creat(dst,0644);
     if (dst_file == -1)
     {
@@ -434,14 +428,31 @@ bool Bin_xml_creator::Make_xb()
         return false;
     }
     AA(dst_file_size);
-    int written = 
-        write(dst_file,data,dst_file_size);
-    assert(written == dst_file_size);
-
-    close(dst_file);
-
+    bool ok = WriteData(dst_file,data,dst_file_size);
+    if (close(dst_file) != 0)
+    {
+        std::cerr << "error: " << strerror(errno) << " while closing " << dst << "\n";
+        ok = false;
+    }
+    return ok;
+}
 
-    return (written == dst_file_size);
+bool Bin_xml_creator::WriteData(int file,const char *src,int size)
+// write can store less than requested
+{
+    while (size > 0)
+    {
+        int written = write(file,src,size);
+        if (written < 0 && errno == EINTR) continue;
+        if (written <= 0)
+        {
+            std::cerr << "error: " << (written < 0 ? strerror(errno) : "nothing stored") << " while writing " << size << "B to " << dst << "\n";
+            return false;
+        }
+        src += written;
+        size -= written;
+    }
+    return true;
 }
 
 bool Bin_xml_creator::CopySymbolTable() 
-- 
2.43.0


From 1572ad5a42536c94124c6a11cbbf8e386798be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 33/98] fix: check of an element goes through all attributes
 and children

---
 src/bin_xml.cpp | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..40dab62 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -56,43 +56,47 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         if (PD->type >= XBT_LAST) return false;
     // inline parameters
         if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
+        if (XBT_IS_4(PD->type)) continue;
     // check link
         if (PD->data < 0) return false; // reference out of node is not allowed here and yet
         if (PD->data >= length) return false; // pointer out of limit
         
+        const char *value = p0 + PD->data; // each value is read from its aligned position
+        switch (XBT_Align((XML_Binary_Type)PD->type))
+        {
+            case 4: AA(value); break;
+            case 8: AA8(value); break;
+        }
+        const int64_t value_space = p0 + length - value; // can be negative
 
+        int64_t value_size = 0;
         switch (PD->type)
         {
             case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
+                value_size = strnlen(value,value_space)+1;
+                break;
             case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
             case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
             case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
             case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
             case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
             case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
             case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
+                value_size = XBT_FIXEDSIZE(PD->type);
+                break;
+            case XBT_BLOB:
+            case XBT_HEX:
+            case XBT_BLOB_STRING:
+                if (value_space < (int64_t)sizeof(int32_t)) return false;
+                value_size = *reinterpret_cast<const int32_t *>(value);
+                if (value_size < 0) return false;
+                value_size += sizeof(int32_t);
+                break;
             default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
+                std::cerr << "Error: Parameter type " << (int)PD->type << " is not supported now!\n";
                 return false;
         }
+        if (value_size > value_space) return false; // value is not whole inside of node
     }
 // TODO: check value
 
-- 
2.43.0


From 4c69dec58e99b7bb232dba8bb250a645c1d94827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 34/98] fix: opening of a file, which is not complete document,
 fails

---
 src/bin_xml.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 40dab62..a96c59d 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -726,6 +726,7 @@ XB_reader::XB_reader(char *filename)
     this->filename = filename;
     this->size = -1;
     this->fd = -1;
+    this->verbosity = 0;
     
     this->doc = reinterpret_cast<XML_Item*>(MAP_FAILED);
     this->data = nullptr;
@@ -797,8 +798,9 @@ bool XB_reader::Initialize()
         return false;
     }
 
-    size = file_getsize(this->filename);
-    assert(size > sizeof(XML_Item));
+    const int64_t file_size = file_getsize(this->filename);
+    if (file_size <= (int64_t)sizeof(XML_Item)) return false; // not complete document
+    size = file_size;
 
     doc = reinterpret_cast<XML_Item*>(mmap(NULL,size,PROT_READ,MAP_SHARED,fd,0));
     if (doc == MAP_FAILED)
@@ -806,7 +808,7 @@ bool XB_reader::Initialize()
         ERRNO_SHOW(1025,"mmap",filename);
         return false;
     }
-    assert(doc->name == XTNR_META_ROOT);
+    if (doc->name != XTNR_META_ROOT) return false; // not binary xml
 
     // check only root element
     if (!doc->Check(this,false)) return false;
-- 
2.43.0


From 072de1c4624c41fe89771b01eec8a0f2f341e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 35/98] fix: dates are 4 byte values

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..11d0a37 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 6b330750d167905fddf3b92b507406834ed4acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 36/98] fix: text of 64 bit integer is terminated, minimum has
 its sign

---
 src/bin_xml_types.cpp | 46 +++++--------------------------------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f53a16b..ff9b2f9 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -3,6 +3,7 @@
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
+#include <inttypes.h>
 
 namespace pklib_xml
 {
@@ -917,53 +918,16 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 if (offset > 0) return 0;
                 offset += sizeof(int64_t);
 
-                int64_t value = *reinterpret_cast<const int64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                if (neg) *(--d) = '-';
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%" PRId64,*reinterpret_cast<const int64_t*>(data));
+                return strlen(dst);
             }
         case XBT_UINT64:
             {
                 if (offset > 0) return 0;
                 offset += sizeof(uint64_t);
 
-                uint64_t value = *reinterpret_cast<const uint64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                while (value > 0)
-                {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
-                }
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                snprintf(dst,dst_size,"%" PRIu64,*reinterpret_cast<const uint64_t*>(data));
+                return strlen(dst);
             }
         case XBT_FLOAT:
             if (offset > 0) return 0;
-- 
2.43.0


From 5eddcd8e12ac2f865c619d3dc02ae95d1d2f4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 37/98] fix: time with milliseconds is rendered with two digit
 hour

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index ff9b2f9..1981e7a 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -971,7 +971,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From ebbd653f9dd353bdbc1894574b125a6a18212280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 38/98] fix: converted time with milliseconds is aligned as it
 is read

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 1981e7a..13b9b77 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -624,13 +624,13 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
                     fprintf(stderr,"UNIX_TIME64_MSEC: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
                     return false;
                 }
+                AA8(*_wp);
                 *reinterpret_cast<int64_t*>(*_wp) = tm0;
                 *_wp += sizeof(int64_t);
                 return true;
-- 
2.43.0


From 4abb425fa67876291ba48d2db09d9b12aa4f0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 39/98] fix: IPv4 address has its text

---
 src/bin_xml_types.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 13b9b77..cdc708b 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -736,6 +736,7 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
+        case XBT_IPv4:
         case XBT_SHA1:
             {
                 
-- 
2.43.0


From b832621e7781276d371feef318fbf33db9748453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 40/98] fix: pointers to number give value of the asked element

---
 src/bin_xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a96c59d..69d9670 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -139,7 +139,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data);
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
@@ -444,7 +444,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From 3fd29f65015c3e2bf99948ca8d5d5187e8e127fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 41/98] fix: sign of fixed point numbers between -1 and 0 is
 rendered

---
 src/bin_xml_types.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index cdc708b..6f8d8c5 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -800,6 +800,16 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
     return nullptr;
 }
 
+static void Dec2Str(int32_t value,int decimals,char *dst,int dst_size)
+// fixed point number with decimals, sign is kept even when whole part is 0
+{
+    const bool neg = value < 0;
+    const uint32_t V = neg ? 0U - (uint32_t)value : (uint32_t)value;
+    uint32_t unit = 1;
+    for(int i = 0;i < decimals;i++) unit *= 10;
+    snprintf(dst,dst_size,"%s%u.%0*u",neg ? "-" : "",V / unit,decimals,V % unit);
+}
+
 int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
 {
     ASSERT_NO_RET_N1(1203,dst != nullptr);
@@ -857,7 +867,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                Dec2Str(V,1,dst,dst_size);
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -866,7 +876,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                Dec2Str(V,2,dst,dst_size);
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -875,7 +885,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                Dec2Str(V,3,dst,dst_size);
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -884,7 +894,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                Dec2Str(V,6,dst,dst_size);
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -893,7 +903,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                Dec2Str(V,9,dst,dst_size);
                 return strlen(dst);
             }
 
-- 
2.43.0


From 052be591bdf6f67894248aed6cd0429aebcad795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 42/98] fix: length of rendered hexadecimal line does not count
 its terminator

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6f8d8c5..f0a7173 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1019,7 +1019,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 src  += offset;
 
                 if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
+                ASSERT_NO_RET_N1(2126,(int)size*2+2 <= dst_size);
 
                 Hex2Str(src,size,dst);
 
@@ -1027,7 +1027,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1;
             }
         case XBT_GUID:
             {
-- 
2.43.0


From b4ea72a7c7db02ca5c27e03a6ade957c730fddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 43/98] fix: text that is not whole hexadecimal bytes is
 converted as text

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f0a7173..e2bb754 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -602,7 +602,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 *_wp += sizeof(int32_t);
                 *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),limit - *_wp);
                 *_wp += *size;
-                return true;
+                return *src == '\0'; // odd count of digits or prefix cannot be stored as bytes
             }
         case XBT_FLOAT:
             AA(*_wp);
-- 
2.43.0


From 9435b90f7553a790e034dbd71fe981c729324251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 44/98] fix: packing keeps alignment of 8 byte values

---
 src/bin_xml_packer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..4502e29 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -252,6 +252,8 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _x is pointer to XML_Item in destionation data2 space
 {
     AA(*_wp);
+// values aligned to 8 must stay aligned after move
+    if (reinterpret_cast<XML_Item*>(_X)->name != XTNR_REFERENCE && (((*_wp - data2) ^ (_X - data)) & 4)) *_wp += 4;
     char *_x = *_wp;
     
     XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
-- 
2.43.0


From 0cb6a5fd963ffff46e1d752f086ca4fc50009ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 45/98] fix: converter frees its buffer and symbol tables as
 they were allocated

---
 src/bin_xml_creator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index adf1c03..8df4283 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -340,8 +340,8 @@ Bin_xml_creator::~Bin_xml_creator()
         {
             free((void*)symbol_table[t][i]);
         }
-        delete [] symbol_table[t];
-        delete [] symbol_table_types[t];
+        free(symbol_table[t]);
+        free(symbol_table_types[t]);
         symbol_table[t] = nullptr;
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
@@ -353,6 +353,7 @@ Bin_xml_creator::~Bin_xml_creator()
     }
     if (dst != nullptr)
         delete [] dst; 
+    free(data);
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From b28a3752e8eeec4abbdfd3dffb86f8e2ec89e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 46/98] fix: all members of converter are initialized, default
 destination is named by source

---
 src/bin_xml_creator.cpp | 23 +++++++++++++++++++----
 src/bin_xml_packer.cpp  |  4 ++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 8df4283..6a121cb 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -267,9 +267,13 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     else
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
-    this->dst_file_size = -1;
-    
     this->data = nullptr;
+    this->dst_file_size = -1;
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->total_node_count = 0;
+    this->total_param_count = 0;
+    this->write_failed = false;
 
 
 // 2nd pass to fill tables
@@ -294,7 +298,12 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->dst_file_size = -1;
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->total_node_count = 0;
+    this->total_param_count = 0;
+    this->write_failed = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -309,6 +318,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src = src;
     this->src->LinkCreator(this); // link it
     this->src_allocated = false;
+    const char *dst = src->getFilename();
     this->target = target;
     if (target == XBTARGET_XB)
         this->dst = AllocFilenameChangeExt(dst,".xb");
@@ -316,7 +326,12 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
         this->dst = AllocFilenameChangeExt(dst,".xbw");
     this->dst_file = -1; 
     this->data = nullptr;
-    this->dst_file = -1; 
+    this->dst_file_size = -1;
+    this->data_size_allocated = 0;
+    this->data_size_needed = 0;
+    this->total_node_count = 0;
+    this->total_param_count = 0;
+    this->write_failed = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 4502e29..152aa4e 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -312,7 +312,7 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 }
 
 Bin_xml_packer::Bin_xml_packer(const char *src,const char *dst)
-    : Bin_xml_creator(src,dst)
+    : Bin_xml_creator(src,dst),data2(nullptr)
 {
 #ifndef NDEBUG
     XML_Item A;
@@ -324,7 +324,7 @@ Bin_xml_packer::Bin_xml_packer(const char *src,const char *dst)
 }
 
 Bin_xml_packer::Bin_xml_packer(Bin_src_plugin *src,const char *dst)
-    : Bin_xml_creator(src,dst)
+    : Bin_xml_creator(src,dst),data2(nullptr)
 {
 #ifndef NDEBUG
     XML_Item A;
-- 
2.43.0


From bbad0220b3a3e80f25de653a20d17034f875a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 47/98] fix: conversion of file with unknown extension fails

---
 src/bin_xml_creator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 6a121cb..dffa85d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -375,6 +375,11 @@ Bin_xml_creator::~Bin_xml_creator()
 
 bool Bin_xml_creator::DoAll()
 {
+    if (src == nullptr)
+    {
+        std::cerr << "error: unknown type of source of " << dst << "\n";
+        return false;
+    }
     ASSERT_NO_RET_FALSE(2049,dst != nullptr);
     int dst_len = strlen(dst);
     ASSERT_NO_RET_FALSE(2050,dst_len > 0);
-- 
2.43.0


From a260bf7c5e834cba35e872377400de059e9cf5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 48/98] fix: converted file does not contain content of freed
 memory

---
 src/bin_xml_creator.cpp | 4 ++--
 src/bin_xml_packer.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index dffa85d..7d40edd 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -539,10 +539,10 @@ bool Bin_xml_creator::AllocateData()
         return false;
     }
     free(this->data);
-    this->data = reinterpret_cast<char *>(malloc(size));
+    this->data = reinterpret_cast<char *>(calloc(1,size)); // gaps of alignment will be 0
     if (this->data == nullptr)
     {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << size << ")\n";
+        std::cerr << "error: " << strerror(errno) << " while calloc(" << size << ")\n";
         return false;
     }
     this->data_size_allocated = size;
diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 152aa4e..7511879 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -88,7 +88,7 @@ int32_t Bin_xml_packer::Pack()
 
     DBG(std::cout << "\n===========================================================\n");
 // now i should recursively copy/repair all
-    data2 = new char [dst_file_size]; // reinterpret_cast<char *>(alloca(dst_file_size));
+    data2 = new char [dst_file_size](); // reinterpret_cast<char *>(alloca(dst_file_size));
     char *_wp = data2;
 
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(PackNode(&_wp,this->data));
-- 
2.43.0


From c4d112996ecbb8b1dbc7253b17b94e1f59446032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 49/98] fix: only 4 byte values of attributes are stored inside
 of its description

---
 src/bin_xml_creator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 7d40edd..90a0e8c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1088,9 +1088,8 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (XBT_IS_4(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
-- 
2.43.0


From db04a16e51ed582b7f1b8b910e6e8c4d9e5785f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 50/98] fix: json source closes its file and unmaps what it
 mapped

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 20 +++++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..00beda4 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -10,6 +10,7 @@ class Bin_json_plugin : public Bin_src_plugin // interface for json input format
 protected:
 	int		fd;
 	const char	*source;
+	int		source_size;
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..c694479 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -57,6 +57,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 {
 	this->fd = -1;
 	this->source = reinterpret_cast<const char*>(MAP_FAILED);
+	this->source_size = 0;
 	this->num_tokens0 = -1;	
 	this->num_tokens1 = -1;	
 	this->tokens = nullptr;
@@ -78,7 +79,7 @@ Bin_json_plugin::~Bin_json_plugin()
 	}
 
 
-	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
+	if (source != MAP_FAILED && munmap(const_cast<char *>(source),source_size) == -1)
 		ERRNO_SHOW(1001,"munmap",filename);
 
 	if (fd != -1 && close(fd) == -1)
@@ -91,13 +92,14 @@ bool Bin_json_plugin::Initialize()
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
 		return false;
 	}
-	source = reinterpret_cast<const char *>(mmap(nullptr,file_size,PROT_READ,MAP_PRIVATE,fd,0));
+	source_size = file_size; // file_size can be updated later
+	source = reinterpret_cast<const char *>(mmap(nullptr,source_size,PROT_READ,MAP_PRIVATE,fd,0));
 	if (source == MAP_FAILED)
 	{
 		ERRNO_SHOW(1004,"mmap",filename);
@@ -109,7 +111,7 @@ bool Bin_json_plugin::Initialize()
 	jsmn_parser JP;
 
 	jsmn_init(&JP);
-	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
+	num_tokens0 = jsmn_parse(&JP,source,source_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
 
 	tokens = new jsmntok_t[num_tokens0];
@@ -118,7 +120,7 @@ bool Bin_json_plugin::Initialize()
 	// 3. json parsing - 2st pass - filling
 //	std::cout << "3 parse (2nd) ...\n";
 	jsmn_init(&JP);
-	num_tokens1 = jsmn_parse(&JP,source,file_size,tokens,num_tokens0);
+	num_tokens1 = jsmn_parse(&JP,source,source_size,tokens,num_tokens0);
 	std::cout << " ... " << num_tokens1 << " tokens\n";
 
 //	std::cout << " ... " << num_tokens0 << " tokens\n";
@@ -190,8 +192,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 
 		if (P2->type == JSMN_STRING)
 		{
-			assert(P2->start >= 0 && P2->start < file_size);
-			assert(P2->end > 0 && P2->end <= file_size);
+			assert(P2->start >= 0 && P2->start < source_size);
+			assert(P2->end > 0 && P2->end <= source_size);
 			int len = P2->end - P2->start;
 			strncpy(last_str,source + P2->start,len);
 			
@@ -226,8 +228,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 
 	if (X->type != JSMN_STRING) return nullptr;
 
-	assert(X->start >= 0 && X->start < file_size);
-	assert(X->end > 0 && X->end <= file_size);
+	assert(X->start >= 0 && X->start < source_size);
+	assert(X->end > 0 && X->end <= source_size);
 	
 	strncpy(last_str,source + X->start,X->end - X->start);
 	last_str[X->end - X->start] = 0;
-- 
2.43.0


From 703874d1d5ead964800f10fefaf7802b34ac1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 51/98] fix: malformed json is refused

---
 src/bin_json_plugin.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index c694479..a7bd478 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,31 +13,43 @@
 namespace pklib_xml {
 
 
-static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
+static int jsmn_prepare_total_size(jsmntok_t *tokens,int num_tokens,int idx)
 // will fill my extension of jmntok_t - total_size
+// returns -1 when tokens are not regular json
 {
+    if (idx >= num_tokens) return -1; // value is missing
     int total_size = 1;
 	switch (tokens[idx].type)
 	{
 		case JSMN_STRING:
 		case JSMN_PRIMITIVE:
+			if (tokens[idx].size != 0) return -1; // name, where value is expected
 			break;
 		case JSMN_OBJECT:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				const int name = idx+total_size;
+				if (name >= num_tokens) return -1;
+				if (tokens[name].type != JSMN_STRING && tokens[name].type != JSMN_PRIMITIVE) return -1; // not a name
+				if (tokens[name].size != 1) return -1; // exactly 1 value expected
+				tokens[name].total_size = 1;
+
+				const int size = jsmn_prepare_total_size(tokens,num_tokens,name+1);
+				if (size < 0) return -1;
+				total_size += 1+size;
 			}
 			break;
 		case JSMN_ARRAY:
 			for(int i = tokens[idx].size;i > 0;i--)
 			{
-				total_size += jsmn_prepare_total_size(tokens,idx+total_size);
+				const int size = jsmn_prepare_total_size(tokens,num_tokens,idx+total_size);
+				if (size < 0) return -1;
+				total_size += size;
 			}
 			break;
 		default:
 			std::cerr << "jsmn_prepare_total_size: Unknown type " << tokens[idx].type << " at element " << idx << "\n";
-			_exit(1); // ERROR
+			return -1; // ERROR
 	}
     return tokens[idx].total_size = total_size;
 }
@@ -113,6 +125,7 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,source_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0) return false; // not json
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
@@ -140,13 +153,13 @@ bool Bin_json_plugin::Initialize()
 		default:
 			std::cerr << "Bin_json_plugin::Initialize() Unknown type " << tokens[i].type << " at element " << i << "\n";
             std::cerr << "Token size = " << sizeof(jsmntok_t) << "\n";
-			_exit(1); // ERROR
+			return false; // ERROR
         }
     }
 
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
-	int total_size = jsmn_prepare_total_size(tokens,0);
+	int total_size = jsmn_prepare_total_size(tokens,num_tokens0,0);
 	if (total_size != num_tokens0) 
 	{
 		std::cerr << ANSI_RED_BRIGHT "Error: jsmn_prepare_total_size() ---> " << total_size << " != " << num_tokens0 << ANSI_RESET_LF;
-- 
2.43.0


From b943a7eed6f066f87bf4deb8ed1319c313ee62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 52/98] fix: name and value of json element do not share one
 buffer

---
 include/binary_xml/bin_json_plugin.h |  3 +-
 src/bin_json_plugin.cpp              | 46 ++++++++++++++++------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 00beda4..13d51f0 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,7 +14,8 @@ protected:
 	int		num_tokens0;
 	int		num_tokens1;
 	int		max_str_len;
-	char		*last_str;
+	char		*last_str;	// last value
+	char		*last_name;	// last name
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index a7bd478..5c6eb12 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -75,6 +75,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_name = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -89,6 +90,11 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_name != nullptr)
+	{
+		delete [] last_name;
+		last_name = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),source_size) == -1)
@@ -175,8 +181,10 @@ bool Bin_json_plugin::Initialize()
 		if (len > max_str_len) max_str_len = len;
 	}
 
-	last_str = new char[max_str_len+1+4];	// possible adding "Item"
+	last_str = new char[max_str_len+1];
 	last_str[max_str_len] = '\0';
+	last_name = new char[max_str_len+1+4];	// possible adding "Item"
+	last_name[max_str_len] = '\0';
 
 	return true;
 }
@@ -208,32 +216,32 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			assert(P2->start >= 0 && P2->start < source_size);
 			assert(P2->end > 0 && P2->end <= source_size);
 			int len = P2->end - P2->start;
-			strncpy(last_str,source + P2->start,len);
+			strncpy(last_name,source + P2->start,len);
 			
-			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			last_name[len] = 0;
+			if (len > 0 && last_name[len-1] == 's')
 			{
-				last_str[len-1] = '\0';
+				last_name[len-1] = '\0';
 			}
 			else if (len > 4 
-				&& last_str[len-4] == 'L'
-				&& last_str[len-3] == 'i'
-				&& last_str[len-2] == 's'
-				&& last_str[len-1] == 't')
+				&& last_name[len-4] == 'L'
+				&& last_name[len-3] == 'i'
+				&& last_name[len-2] == 's'
+				&& last_name[len-1] == 't')
 			{
-				last_str[len-4] = '\0';
+				last_name[len-4] = '\0';
 			}
 			else
 			{
-				last_str[len++] = 'I';
-				last_str[len++] = 't';
-				last_str[len++] = 'e';
-				last_str[len++] = 'm';
-				last_str[len++] = '\0';
+				last_name[len++] = 'I';
+				last_name[len++] = 't';
+				last_name[len++] = 'e';
+				last_name[len++] = 'm';
+				last_name[len++] = '\0';
 			}
 
 
-			return last_str;
+			return last_name;
 		}
 		return "__ARRAY_ITEM_NAME__";
 	}
@@ -244,9 +252,9 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < source_size);
 	assert(X->end > 0 && X->end <= source_size);
 	
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_name,source + X->start,X->end - X->start);
+	last_name[X->end - X->start] = 0;
+	return last_name;
 }
 
 const char *Bin_json_plugin::getNodeValue(void *element)
-- 
2.43.0


From e5dcf8a881a3ba4c6951bdb4e84cdaa049ff977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 53/98] fix: xml converted to xbw keeps empty and untyped
 values and fails instead of exiting

---
 src/bin_xml_creator.cpp | 56 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 90a0e8c..8667f45 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -712,14 +712,15 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        ASSERT_NO_RET_FALSE(2153,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        ASSERT_NO_RET_FALSE(2154,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
     // 3.6 fill data
+    this->write_failed = false;
     MakingXBW_1node node_info;
     node_info.creator = this;
     node_info.bw      = &W;
@@ -730,6 +731,7 @@ bool Bin_xml_creator::Make_xbw()
 
     XStore2XBWEvent(root,&node_info);
     ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
+    ASSERT_NO_RET_FALSE(2155,!this->write_failed); // everything must be stored
     W.setRoot(node_info.dst_bw_element);
 //typedef void (*OnElement_t)(void *element,void *userdata);
 
@@ -1137,7 +1139,7 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     if (node_info->param_name != nullptr)
     {
         id = _this->Find(node_info->param_name,SYMBOL_TABLE_PARAMS); // SLOW
-        ASSERT_NO_RET(2134,id >= 0);
+        ASSERT_NO_(2134,id != XPNR_NULL,_this->write_failed = true;return);
         st_type = SYMBOL_TABLE_PARAMS;
         flags = BIN_WRITE_ATTR_FLAG;
         value = node_info->param_value;
@@ -1148,12 +1150,12 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     else
     {
         const char *node_name = _this->src->getNodeName(element);
-        ASSERT_NO_RET(2072,node_name != nullptr);
+        ASSERT_NO_(2072,node_name != nullptr,_this->write_failed = true;return);
 
         //printf("%s (%s)",node_name,pool->binary_xml_write_type_info);
 
         id = _this->Find(node_name,SYMBOL_TABLE_NODES); // SLOW
-        ASSERT_NO_RET(2056,id >= 0);
+        ASSERT_NO_(2056,id != XTNR_NULL,_this->write_failed = true;return);
         st_type = SYMBOL_TABLE_NODES;
         flags = BIN_WRITE_ELEMENT_FLAG;
         value = _this->src->getNodeBinValue(element,tag_type,value_size);    // binary value referenced
@@ -1166,7 +1168,14 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
 
     if (from_text) // text analyse solution when binary is not available
     {
-        tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+        tag_type = XBT_NULL;
+        if (value != nullptr && *value != '\0') // element without value has no type
+        {
+            if (id >= 0)
+                tag_type = static_cast<XML_Binary_Type>(_this->symbol_table_types[st_type][id]);
+            if (tag_type == XBT_NULL || tag_type == XBT_UNKNOWN || tag_type == XBT_VARIANT) // reserved name or no common type
+                tag_type = XBT_Detect(value);
+        }
     // THIS IS BAD: I have value in string but need size of this value as binary value
     // and this size can be obtained by decoding string. But decoding string is work and
     // if size of result is only result, it is waste of CPU time.
@@ -1179,21 +1188,32 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     
     // NOW SLOW but SAFE solution
     // 1st pass - detecting real size
-        int size = XBT_SizeFromString(value,tag_type); // TODO: not finished BLOB detection!!!
-        int size2 = XBT_Size2(tag_type,size);
-        //int align = XBT_Align(tag_type);
+        BW_element *dst = nullptr;
+        for(;;)
+        {
+            int size = XBT_SizeFromString(value,tag_type); // TODO: not finished BLOB detection!!!
+            if (size >= 0)
+            {
+                int size2 = XBT_Size2(tag_type,size);
+                //int align = XBT_Align(tag_type);
         
-        ASSERT_NO_EXIT_1(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
+                ASSERT_NO_(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/),_this->write_failed = true;return);    // this is faster, as I know, where plugin is
 
-        BW_element *dst = node_info->dst_bw_element = pool->new_element(tag_type,size);
-        //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
-        ASSERT_NO_EXIT_1(2074,dst != nullptr);
-        dst->identification = id;
-        dst->flags = flags;; // element and not attribute
+                dst = pool->new_element(tag_type,size);
+                //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
+                ASSERT_NO_(2074,dst != nullptr,_this->write_failed = true;return);
+                dst->identification = id;
+                dst->flags = flags; // element and not attribute
     // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
-        char *wp = reinterpret_cast<char*>(dst+1);
-        char *limit = wp + size2;
-        ASSERT_NO_EXIT_1(2062,XBT_FromString(value,tag_type,&wp,limit));
+                char *wp = reinterpret_cast<char*>(dst+1);
+                char *limit = wp + size2;
+                if (XBT_FromString(value,tag_type,&wp,limit)) break;
+            }
+            // looks like the type, but it is not valid value of it -> keep it as text
+            ASSERT_NO_(2062,tag_type != XBT_STRING,_this->write_failed = true;return);
+            tag_type = XBT_STRING;
+        }
+        node_info->dst_bw_element = dst;
     }
     else
     { // xbw2xbw variant
-- 
2.43.0


From d8bac9e656853eeb95668fb315f78501a3811226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 54/98] fix: partly appended record is removed from the end of
 file

---
 src/bin_xml_creator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 8667f45..15577b4 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -582,11 +582,12 @@ bool Bin_xml_creator::Append(void *element)
     if (this->write_failed) return false;
     
     int size = wp - data - file_align;
-    int written = write(dst_file,data+file_align,size);
-    if (written != size)
+    if (!WriteData(dst_file,data+file_align,size))
     {
-            std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
-            return false;
+        // part of record at the end would hide everything appended later
+        if (ftruncate(dst_file,file_info.st_size) != 0)
+            ERRNO_SHOW(2156,"ftruncate",dst);
+        return false;
     }
     
     return true;
-- 
2.43.0


From 5fe68662e0256bf3ae90054192f741f8404ad8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 55/98] fix: records are appended only to a file made by the
 same creator

---
 include/binary_xml/bin_xml_creator.h | 1 +
 src/bin_xml_creator.cpp              | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 3ce7c8f..f3ea418 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -102,6 +102,7 @@ protected:
 // incremental addition
     int     dst_file;
 // some element or attribute cannot be stored
+    bool    dst_complete;               // dst is written and can be extended by Append()
     bool    write_failed;
 public:
     Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 15577b4..56ff91a 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -274,6 +274,7 @@ Bin_xml_creator::Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator
     this->total_node_count = 0;
     this->total_param_count = 0;
     this->write_failed = false;
+    this->dst_complete = false;
 
 
 // 2nd pass to fill tables
@@ -304,6 +305,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_cre
     this->total_node_count = 0;
     this->total_param_count = 0;
     this->write_failed = false;
+    this->dst_complete = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -332,6 +334,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->total_node_count = 0;
     this->total_param_count = 0;
     this->write_failed = false;
+    this->dst_complete = false;
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -436,7 +439,8 @@ bool Bin_xml_creator::Make_xb()
 
 
     // 5. write to file------------------------------
-    return WriteFile();
+    this->dst_complete = WriteFile();
+    return this->dst_complete;
 }
 
 bool Bin_xml_creator::WriteFile()
@@ -551,6 +555,7 @@ bool Bin_xml_creator::AllocateData()
 
 bool Bin_xml_creator::Append(void *element)
 {
+    ASSERT_NO_RET_FALSE(2157,dst_complete); // records use symbol tables of file made by DoAll()
     if (dst_file == -1)
     {
         dst_file = open(dst,O_WRONLY | O_APPEND); // file must already exist
-- 
2.43.0


From ad86419ac7562217feb835a2ba9b505002d51b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 56/98] fix: reader releases file when destroyed and when close
 fails

---
 src/bin_xml.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 69d9670..379e964 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -735,8 +735,8 @@ XB_reader::XB_reader(char *filename)
 
 XB_reader::~XB_reader()
 {
-//    if (!Finalize()) CANNOT CALL VIRTUAL METHODS IN DESTRUCTOR!!!
-//        std::cerr << "Error in XB_reader(" << this->filename << ")::Finalize\n";
+    if (!Finalize())
+        std::cerr << "Error in XB_reader(" << this->filename << ")::Finalize\n";
 #ifndef NDEBUG
 //    printf("~XB_reader(%s)\n",this->filename);
 #endif
@@ -850,12 +850,13 @@ bool XB_reader::Finalize()
     }
     if (fd != -1)
     {
-        if (close(fd) == -1)
+        int result = close(fd);
+        fd = -1; // it is released even when close reports error
+        if (result == -1)
         {
             ERRNO_SHOW(1027,"close",this->filename);
             return false;
         }
-        fd = -1;
     }
     return true;
 }
-- 
2.43.0


From fb7ccbc4be0f023de21a4009cfa0a4b22173d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 57/98] fix: double value has its text

---
 src/bin_xml_types.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index e2bb754..0312427 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -733,6 +733,7 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -946,6 +947,12 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
             return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data));
+            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
-- 
2.43.0


From 92fb9938b26d5ff2037f42ecf052bce9f955a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 58/98] fix: text values of source are printed

---
 src/bin_xml_creator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 56ff91a..410a594 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -172,7 +172,7 @@ void Bin_src_plugin::s_OnParam2Stream(const char *param_name,const char *param_v
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t *CTX = reinterpret_cast<BIN_SRC_PLUGIN2STREAM_CONTEXT_t *>(userdata);
 
     CTX->os << " " << param_name << "=\"";
-    for(const char *c = param_value;*c != '\0';c++)
+    for(const char *c = param_value;c != nullptr && *c != '\0';c++)
     {
         if (*c == '<') CTX->os << "&lt;";
         else if (*c == '>') CTX->os << "&gt;";
@@ -217,6 +217,11 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     XML_Binary_Type value_type;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN) // source has only text values
+    {
+        value = CTX->src->getNodeValue(element);
+        value_type = (value != nullptr ? XBT_STRING : XBT_NULL);
+    }
 
     if (CTX->sibling_count == 0) 
         if (value == nullptr) CTX->os << "/>\n";
-- 
2.43.0


From 9c24991415aafc2850e634ca95ea0f5b6c6729fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 59/98] fix: milliseconds of time before 1970 are not negative

---
 src/bin_xml_types.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 0312427..b767f80 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -984,12 +984,14 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 //                LOG("TIME64(%p) --> %08X:%08X",data, *reinterpret_cast<const uint32_t*>(data), *(reinterpret_cast<const uint32_t*>(data)+1));
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
-                time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) msec += 1000; // before 1970
+                time_t tm0 = (time_t)((value-msec)/1000);
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From 4b2f4fb73d7c66d5d879e4eec6ac713ded8ff667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 60/98] fix: elements of different names are not merged

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e3cdf91..46278e3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1224,6 +1224,7 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 // when some element miss, it should return false
 {
     if (src == nullptr) return false;
+    if (identification != (int16_t)src->name) return false; // another element
 
     // I must remember all processed keys
     int checked_params[MAX_PARAM_KEYS];
-- 
2.43.0


From 6024d7370318ac0f5f3f4ef834619e695898da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 61/98] fix: value of element is copied with it

---
 include/binary_xml/bin_write_plugin.h |  1 +
 src/bin_write_plugin.cpp              | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..a922002 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -330,6 +330,7 @@ public: // tag creation
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
 private:
+    BW_element*     tagCopy_(XML_Item *src,bool copy_value);
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
 public: // Bin_src_plugin
     virtual void *getRoot();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 46278e3..e80de31 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2734,18 +2734,32 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+BW_element* BW_plugin::tagCopy_(XML_Item *src,bool copy_value)
+// new empty element of the same name as src
+{
+    if (!copy_value) return tag(src->name);
+    XML_Binary_Data_Ref data = src->getData();
+    return tagData(src->name,data);
+}
+
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
 {
 // source root
     if (root == nullptr) return nullptr; // nothing? OK
     ASSERT_NO_RET_NULL(1975,root == xb.getRoot());
 
+// 1st element of path - only the last element is copied with its value
+    XML_Item *element = va_arg(ap,XML_Item *);
+    bool copy_value = copy_whole_last_node && element == nullptr;
+
 // destination root
     BW_element* root2;
     bool copy;
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = tagCopy_(root,copy_value);
+        ASSERT_NO_RET_NULL(2158,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2758,7 +2772,9 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *content = tagCopy_(root,copy_value);
+                ASSERT_NO_RET_NULL(2159,content != nullptr);
+                root2->first_child = content->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
@@ -2780,7 +2796,6 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 
     for(;;)
     {
-        XML_Item *element = va_arg(ap,XML_Item *);
         if (element == nullptr) 
         {
             // Recursive copy of last element
@@ -2795,6 +2810,7 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         }
         if (copy) ASSERT_NO_RET_NULL(1994,dst->CopyKeys(xb,src) != nullptr);
     //---------------------------------------------------------------------------------------------
+        XML_Item   *next = va_arg(ap,XML_Item *);
         BW_element *element2 = nullptr;
         // 1. Find element in dst
         if (dst->first_child != 0)
@@ -2814,12 +2830,15 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = tagCopy_(element,copy_whole_last_node && next == nullptr);
+            ASSERT_NO_RET_NULL(2160,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
         src = element;
         dst = element2;
+        element = next;
     }
 //-----------
 
-- 
2.43.0


From ea83dff6fed9c6d02c228071e20b74a7a00f0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 62/98] fix: merged elements are linked when they are complete

---
 src/bin_write_plugin.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e80de31..2a5fb4b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2752,14 +2752,17 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
     XML_Item *element = va_arg(ap,XML_Item *);
     bool copy_value = copy_whole_last_node && element == nullptr;
 
+// what is missing is linked when it is complete - nobody can see (or find after failure) half of it
+    BW_element *missing = nullptr;          // 1st created element
+    BW_element *missing_parent = nullptr;   // nullptr - it is the root element
+
 // destination root
     BW_element* root2;
     bool copy;
     if (pool->root == 0) // no root element -> create one
     {
-        root2 = tagCopy_(root,copy_value);
+        root2 = missing = tagCopy_(root,copy_value);
         ASSERT_NO_RET_NULL(2158,root2 != nullptr);
-        setRoot(root2);
         copy = true;
     }
     else
@@ -2772,12 +2775,14 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                BW_element *content = tagCopy_(root,copy_value);
-                ASSERT_NO_RET_NULL(2159,content != nullptr);
-                root2->first_child = content->offset;
+                missing = tagCopy_(root,copy_value);
+                ASSERT_NO_RET_NULL(2159,missing != nullptr);
+                missing_parent = root2;
+                root2 = missing;
                 copy = true;
             }
-            root2 = BWE(root2->first_child);
+            else
+                root2 = BWE(root2->first_child);
         }
         if (!copy)
         {
@@ -2832,7 +2837,13 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         {
             element2 = tagCopy_(element,copy_whole_last_node && next == nullptr);
             ASSERT_NO_RET_NULL(2160,element2 != nullptr);
-            dst->add(element2);
+            if (missing == nullptr)
+            {
+                missing = element2;
+                missing_parent = dst;
+            }
+            else
+                dst->add(element2);
             copy = true;
         }
         else copy = false;
@@ -2842,6 +2853,11 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
     }
 //-----------
 
+    if (missing_parent != nullptr)
+        missing_parent->add(missing);
+    else if (missing != nullptr)
+        setRoot(missing);
+
     return dst;
 }
 
-- 
2.43.0


From 24da0f69d36b65944d27a9d4f2d8c5940b0cf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 63/98] fix: full document can be opened with its dictionary

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2a5fb4b..a1515ae 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2338,10 +2338,11 @@ void BW_plugin::importParams(XB_reader *src)
 
 bool BW_plugin::allRegistered()
 {
+    if (pool->tags.index != 0 && pool->params.index != 0) // both tables are complete, no space is needed
+        return (check_failures == 0); // no problems?
+
     ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
 //    BW_offset_t names_limit = pool->allocator;
-    if (check_only && pool->tags.index != 0 && pool->params.index != 0)
-        return (check_failures == 0); // no problems?
 
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-- 
2.43.0


From b74a208e7761adeef453b4400f3c5315136e72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 64/98] fix: digest of a file is of its whole content

---
 src/missings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..56f9557 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -154,9 +154,9 @@ bool file_getsha1(const char *filename,unsigned char *hash)
             close(fd);
             return false;
         }
+        if (size == 0)
+            break; // finished - read can give less than asked before end of file too
         blk_SHA1_Update(&ctx,buffer,size);
-        if (size < (int)sizeof(buffer))
-            break; // finished
     }
     blk_SHA1_Final(hash,&ctx);    
     if (close(fd) < 0)    
-- 
2.43.0


From 81cfb72aaa8fa488b29ab495e7d1413689626faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 65/98] fix: file is closed when its text cannot be written

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..f429648 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -26,14 +26,14 @@ bool WriteToFile(const char *filename,const char *fmt,...)
     va_start(ap,fmt);
     
     int ok = vfprintf(f,fmt,ap);
+    va_end(ap);
     if (ok < 0)
     {
         ERRNO_SHOW(1008,"WriteToFile-fprintf",fmt);
+        fclose(f);
         return false;
     }
 
-    va_end(ap);
-
     if (fclose(f) == EOF)
     {
         ERRNO_SHOW(1009,"WriteToFile-fclose",filename);
-- 
2.43.0


From b18439439970c7f0f1026dde080fa3c04b2f18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 66/98] fix: force_directory fails when a file is in the place
 of directory

---
 src/files.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index d7521f6..4589fb4 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -30,7 +30,15 @@ bool force_directory(const char *directory, mode_t mode)
 //          D(std::cout << "Dbg: " << directory_part << "\n");
     
             if (err == 0) continue;// ok - created
-            if (errno == EEXIST) continue;// ok - already exists
+            if (errno == EEXIST) 
+            {
+                struct stat info;
+                if (stat(directory_part,&info) == 0)
+                {
+                    if (S_ISDIR(info.st_mode)) continue;// ok - already exists
+                    errno = ENOTDIR;
+                }
+            }
         
             ERRNO_SHOW(1009,"mkdir",directory_part);
             return false;
-- 
2.43.0


From 3e5cb8c6ac6a3be0fcac5d034120c2002d8aa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 67/98] fix: file_get_contents reads whole content

---
 src/files.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index 4589fb4..a5bcdc4 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -111,9 +111,19 @@ int file_get_contents(const char *filename,void *content,int size)
         return -1; // fail
     }
 
-    int rd = read(fd,content,size);
-    if (rd < 0)
-        ERRNO_SHOW(10510,"read",filename);
+    int rd = 0;
+    while (rd < size) // read can give less than asked
+    {
+        int part = read(fd,static_cast<char*>(content) + rd,size - rd);
+        if (part < 0)
+        {
+            ERRNO_SHOW(10510,"read",filename);
+            rd = -1;
+            break;
+        }
+        if (part == 0) break; // end of file
+        rd += part;
+    }
 
     if (close(fd) < 0)
         ERRNO_SHOW(10511,"close",filename);
-- 
2.43.0


From 37cc2c513957ef260258c73018b774c355aae952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 68/98] fix: scan_dir closes its directory, errors of callback
 are not its own

---
 src/files.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index a5bcdc4..cf8c802 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -139,11 +139,20 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
         ERRNO_SHOW(1101,"opendir",base_dir);
         return false;
     }
+    bool ok = true;
     for(;;)
     {
         errno = 0;
         struct dirent *dirent = readdir(dir);
-        if (dirent == nullptr) break;
+        if (dirent == nullptr) 
+        {
+            if (errno != 0)
+            {
+                ERRNO_SHOW(1102,"readdir",base_dir);
+                ok = false;
+            }
+            break;
+        }
 
         // typedef bool (*on_file_event)(const char *directory,const char *filename,void *username,uint8_t d_type);
         if (dirent->d_name[0] == '.')
@@ -179,16 +188,11 @@ bool scan_dir(const char *base_dir,void *userdata,on_file_event on_file)
                 break;
         }*/
     }
-    if (errno != 0)
-    {
-        ERRNO_SHOW(1102,"readdir",base_dir);
-        return false;
-    }
     if (closedir(dir) != 0)
     {
         ERRNO_SHOW(2025,"closedir",base_dir);
         return false;
     }    
-    return true;
+    return ok;
 }
 
-- 
2.43.0


From a8636cd4c4c9e6206916d9e0e07458104369bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 69/98] fix: dates before 1970 and last day of leap years keep
 their value

---
 src/utils.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f429648..7255aad 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -528,6 +528,12 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     return true;
 }
 
+static int s_FloorDiv(int a,int b)
+// rounds down also for negative values - years before 1970
+{
+    return a >= 0 ? a / b : -((b - 1 - a) / b);
+}
+
 bool ScanUnixDate(const char *&p,int32_t &value)
 {
     int year,month,day;
@@ -548,9 +554,9 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     }
 
     value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    value += s_FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= s_FloorDiv(year - 1900 - 1,100);
+    value += s_FloorDiv(year - 1600 - 1,400);
 
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
     if (is_leap_year)   
@@ -644,13 +650,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
-- 
2.43.0


From 2d035851cc45d2f85db096a79bd21cfc2eea6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 70/98] fix: text which is not whole value of its type is kept
 as text

---
 src/bin_xml_types.cpp | 67 ++++++++++++++++++++++++++++++++-----------
 src/utils.cpp         | 20 +++++++++++--
 2 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index b767f80..cf69b81 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -3,6 +3,8 @@
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
+#include <errno.h>
+#include <stdlib.h>
 #include <inttypes.h>
 
 namespace pklib_xml
@@ -471,25 +473,51 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static int32_t str2dec(const char *src,int decimals)
+static bool str2int(const char *src,int32_t &value)
+// whole text must be number in range
+{
+    char *end = nullptr;
+    long x = strtol(src,&end,10);
+    if (end == src || *end != '\0' || x < INT32_MIN || x > INT32_MAX) return false;
+    value = static_cast<int32_t>(x);
+    return true;
+}
+
+static bool str2float(const char *src,float &value)
+// whole text must be number
+{
+    char *end = nullptr;
+    value = strtof(src,&end);
+    return end != src && *end == '\0' && strpbrk(src,"xX") == nullptr; // hexadecimal is not float
+}
+
+static bool str2dec(const char *src,int decimals,int32_t &result)
+// whole text must be number and it must fit, decimals over precision are cut
 {
     bool neg = (*src == '-');
     if (neg) src++;
 
-    int32_t value = 0;
+    int64_t value = 0;
+    int digits = 0;
     while (*src >= '0' && *src <= '9')
     {
         value = value * 10 + (*src) - '0';
+        if (value > (int64_t)INT32_MAX+1) return false;
         src++;
+        digits++;
     }
     if (*src == '.') // decimal point
     {
         src++;
-        while (*src >= '0' && *src <= '9' && decimals > 0)
+        while (*src >= '0' && *src <= '9')
         {
-            value = value * 10 + (*src) - '0';
+            if (decimals > 0)
+            {
+                value = value * 10 + (*src) - '0';
+                decimals--;
+            }
             src++;
-            decimals--;
+            digits++;
         }
     }
     while (decimals > 0)
@@ -498,8 +526,11 @@ static int32_t str2dec(const char *src,int decimals)
         decimals--;
     }
 
-    if (neg) return -value;
-    return value;
+    if (digits == 0 || *src != '\0') return false;
+    if (neg) value = -value;
+    if (value < INT32_MIN || value > INT32_MAX) return false;
+    result = static_cast<int32_t>(value);
+    return true;
 }
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
@@ -514,33 +545,33 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             
         case XBT_INT32:
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = atoi(src);
+            if (!str2int(src,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         
         case XBT_INT32_DECI:
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
+            if (!str2dec(src,1,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_CENTI:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
+            if (!str2dec(src,2,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MILI:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
+            if (!str2dec(src,3,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_MICRO:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
+            if (!str2dec(src,6,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_INT32_NANO:     
             AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
+            if (!str2dec(src,9,*reinterpret_cast<int32_t*>(*_wp))) return false;
             *_wp += sizeof(int32_t);
             return true;
         case XBT_IPv4:     
@@ -560,8 +591,10 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
 
         case XBT_INT64:
             {
-                int64_t v;
-                ASSERT_NO_RET_FALSE(2022,ScanInt64(src,v));
+                char *end = nullptr;
+                errno = 0;
+                int64_t v = strtoll(src,&end,10);
+                if (errno == ERANGE || end == src || *end != '\0') return false;
                 AA8(*_wp);
                 *reinterpret_cast<int64_t*>(*_wp) = v;
                 *_wp += sizeof(int64_t);
@@ -570,7 +603,9 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         case XBT_UINT64:
             {
                 uint64_t v;
+                if (src[0] == '0' && src[1] == 'x' && strlen(src) > 2+16) return false; // too long for 64 bits
                 ASSERT_NO_RET_FALSE(2124,ScanUInt64(src,v));
+                if (*src != '\0') return false;
                 AA8(*_wp);
                 *reinterpret_cast<uint64_t*>(*_wp) = v;
                 *_wp += sizeof(uint64_t);
@@ -606,7 +641,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_FLOAT:
             AA(*_wp);
-            *reinterpret_cast<float*>(*_wp) = atof(src);
+            if (!str2float(src,*reinterpret_cast<float*>(*_wp))) return false;
             *_wp += sizeof(float);
             return true;
         case XBT_UNIX_TIME:
diff --git a/src/utils.cpp b/src/utils.cpp
index 7255aad..828a90f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -422,6 +422,16 @@ const int LEAP_MONTH_OFFSET[12] = {
     //    31+29+31+30+31+30+31+31+30+31+30+31,
 };
 
+static bool s_IsDate(int year,int month,int day)
+// is there such day in calendar?
+{
+    if (month < 1 || month > 12 || day < 1) return false;
+    if (month == 12) return day <= 31;
+    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
+    const int *offset = is_leap_year ? LEAP_MONTH_OFFSET : MONTH_OFFSET;
+    return day <= offset[month] - offset[month-1];
+}
+
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
 bool ScanUnixTime(const char *&p,uint32_t &value)
@@ -437,6 +447,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     if (month < 1 || month > 12) return false; // I dont know months out of range
     if (*(p++) != '-') return false;
     if (!ScanInt(p,day)) return false;    
+    if (!s_IsDate(year,month,day)) return false;
 
     if (year < 1970) 
     { 
@@ -463,22 +474,26 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     }
 
     value *= 24*60*60;
+    const uint32_t seconds_left = 0xffffffff - value; // to the end of 32 bit range
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
     if (!ScanInt(p,hour)) return false;    
+    if (hour < 0 || hour > 23 || (uint32_t)hour*3600 > seconds_left) return false;
     value += hour*3600;
     if (*p == '\0') return true; // end of string
     if (*(p++) != ':') return false;
 
     if (!ScanInt(p,minute)) return false;    
-    value += minute*60;
+    if (minute < 0 || minute > 59) return false;
     if (*(p++) != ':') return false;
 
     if (!ScanInt(p,second)) return false;    
-    value += second;
+    if (second < 0 || second > 59) return false;
+    if ((uint32_t)(hour*3600 + minute*60 + second) > seconds_left) return false;
+    value += minute*60 + second;
     return true;
 }
 
@@ -546,6 +561,7 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     if (month < 1 || month > 12) return false; // I dont know months out of range
     if (*(p++) != '-') return false;
     if (!ScanInt(p,day)) return false;    
+    if (!s_IsDate(year,month,day)) return false;
 
     if (year < -365749 || year > 369689) 
     { 
-- 
2.43.0


From 04481f197d9657b1f0e37f9862c53870e91340f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 71/98] fix: dashes out of their places do not make GUID

---
 src/bin_xml_types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index cf69b81..fe10929 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -181,7 +181,8 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         //        std::cout << ANSI_BLUE_DARK "XBT_SHA1 detected in value " << value << ANSI_RESET_LF;
         return XBT_SHA1;
     }
-    if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1)
+    if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1
+            && value[8] == '-' && value[13] == '-' && value[18] == '-' && value[23] == '-')
         return XBT_GUID;
     // 2021-06-15 22:41:40
     if (str_len == 19 && digits == 14 && spaces == 1 && negative == 2 && colons == 2 &&
-- 
2.43.0


From f2a037e88ee53e5139d762d03bf46cfeeb542d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 72/98] fix: base64 text has its end also when it just fits

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 828a90f..9d3d1c9 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1258,7 +1258,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From 53b88ff4af58b3e3d4a6695b21ebf38f97bdc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 73/98] fix: GUID written by chunks has its dashes

---
 src/bin_xml_types.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index fe10929..4643247 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1076,16 +1076,10 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset >= 16) return 0;
+                GUID2Str(data,dst); // 8-4-4-4-12
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From f578c8e52dc684f765ccf0c3a756da88984e69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 74/98] fix: reserved attributes of stored documents have their
 names

---
 include/binary_xml/bin_xml.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/binary_xml/bin_xml.h b/include/binary_xml/bin_xml.h
index 046cd15..b2bd0e7 100644
--- a/include/binary_xml/bin_xml.h
+++ b/include/binary_xml/bin_xml.h
@@ -78,6 +78,9 @@ enum XML_Param_Names
 // </meta_root>
 //-------------------------------------------------------------------------------------------------
 
+const char *XTNR2str(int16_t name);
+const char *XPNR2str(int16_t name);
+
 class XML_Param_Description;
 class XB_reader;
 class XML_Item;
@@ -206,7 +209,7 @@ public:
     bool Finalize();
 
     inline const char *getNodeName(tag_name_id_t name_id) const     { return tag_symbols.getSymbol(name_id);}
-    inline const char *getParamName(tag_name_id_t name_id) const    { return param_symbols.getSymbol(name_id);}
+    inline const char *getParamName(tag_name_id_t name_id) const    { return name_id < 0 ? XPNR2str(name_id) : param_symbols.getSymbol(name_id);}
     inline const char *getFilename() const                          { return filename;}
     inline tag_name_id_t getNodeID(const char *name) const          { return static_cast<tag_name_id_t>(tag_symbols.getID(name));}
     inline param_name_id_t getParamID(const char *name) const       { return static_cast<param_name_id_t>(param_symbols.getID(name));}
@@ -222,8 +225,5 @@ public:
 
 std::ostream& operator<<(std::ostream& os, const hash192_t& h);
 
-const char *XTNR2str(int16_t name);
-const char *XPNR2str(int16_t name);
-
 } // pklib_xml::
 #endif
-- 
2.43.0


From d92d5a42892bf6bef0c838ff8cd907d22117cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 75/98] fix: stored documents are written as valid XML

---
 src/bin_xml.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 379e964..328999a 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -526,6 +526,18 @@ XML_Binary_Data_Ref XML_Item::getData()
     return R;
 }
 
+static void s_WriteEscaped(std::ostream& os,const char *text)
+{
+    for(;*text != '\0';text++)
+    {
+        if (*text == '<') os << "&lt;";
+        else if (*text == '>') os << "&gt;";
+        else if (*text == '&') os << "&amp;";
+        else if (*text == '\"') os << "&quot;";
+        else os << *text;
+    }
+}
+
 void XML_Item::write(std::ostream& os,XB_reader &R,int deep) 
 {
     if (THIS_IS_NULL) return;
@@ -547,8 +559,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         for(int offset = 0;;)
         {
             int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
+            if (len == 0) break;
+            s_WriteEscaped(os,buffer);
         }
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
@@ -582,10 +594,9 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
             int len = getStringChunk(offset,buffer,sizeof(buffer));
             if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
+            s_WriteEscaped(os,buffer);
         }
-        os << "\n";    // TODO: escape value!
+        os << "\n";
         TAB;os << "</" << R.getNodeName(name) << ">\n";
     }
     else
@@ -595,9 +606,10 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
+                os << ">";
+                s_WriteEscaped(os,buffer);
                 while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                    s_WriteEscaped(os,buffer);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
-- 
2.43.0


From a495fb19e15f33a2cb801483114d1ee699a3b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 76/98] fix: attrSHA1 reads only 20 bytes of digest

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a1515ae..6bb937a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -574,7 +574,7 @@ BW_element*     BW_element::attrSHA1(int16_t id,const char *value)
     attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
 
     char *dst = reinterpret_cast<char*>(attr+1); // just after this element
-    memcpy(dst,value,XBT_Size2(attr_type,0));
+    memcpy(dst,value,XBT_FIXEDSIZE(attr_type)); // XBT_Size2() contains alignment too
 
     add(attr);
 
-- 
2.43.0


From b92f32e13eae0f253c388fb17c887456b476b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 77/98] fix: tagSetTime of element without value does not write
 over next element

---
 src/bin_write_plugin.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 6bb937a..d4b7f73 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -913,11 +913,20 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
 {
     if (THIS_IS_NULL) return nullptr;
     BW_element *target = tagGet(id);
-    if (target != nullptr)
+    if (target != nullptr && XBT_IS_4(target->value_type))
     {
         uint32_t *tm = reinterpret_cast<uint32_t*>(target+1); // stored in 4 bytes - see BW_pool::tagTime
         *tm = (uint32_t)value;
     }
+    else if (target != nullptr) // there is no place for value
+    {
+        BW_element *new_item = getPool()->tagTime(id,value);
+        if (new_item == nullptr) return nullptr;
+        new_item->first_attribute = target->first_attribute; // only value is changed
+        new_item->first_child = target->first_child;
+        if (replace(target,new_item) == nullptr) return nullptr;
+        target = new_item;
+    }
     else
     {
         target = getPool()->tagTime(id,value);
-- 
2.43.0


From 8b8a96506bed5a132598f4f77d4569c15c792e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 78/98] fix: findChildByParam compares HEX, BLOB and SHA1
 attributes by content

---
 src/bin_write_plugin.cpp | 4 ++--
 src/bin_xml_types.cpp    | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d4b7f73..cc1c569 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1167,8 +1167,8 @@ BW_element  *BW_element::findChildByParam(int16_t tag_id,int16_t attr_id,XML_Bin
                     if (attr->identification == attr_id) // ok, now I will know!
                     {
                     // I have value_type, data & data_size to compare with ...
-                        int cmp = XBT_Compare(static_cast<XML_Binary_Type>(attr->value_type),reinterpret_cast<void*>(attr+1),
-                                                XBT_Size2(static_cast<XML_Binary_Type>(attr->value_type),0),
+                        XML_Binary_Data_Ref attr_data = attr->getData();
+                        int cmp = XBT_Compare(attr_data.type,attr_data.content,attr_data.content_size,
                                               value_type,data,data_size);
                         if (cmp == 0)
                             return child;
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 4643247..fd1d980 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -292,6 +292,7 @@ int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary
                                 return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
             case XBT_BLOB_STRING:
                                 return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
+            case XBT_BLOB:
             case XBT_HEX:
             case XBT_GUID:
             case XBT_SHA1:
-- 
2.43.0


From 537cb2609b0665df274a27f00019db856c7307a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 79/98] fix: JSON source is written to stream with name of root

---
 src/bin_xml_creator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 410a594..764b619 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -198,7 +198,8 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
     for(int t = 0;t < deep;t++) CTX->os << "\t";
 
 
-    CTX->os << "<" << CTX->src->getNodeName(element);
+    const char *name = CTX->src->getNodeName(element);
+    CTX->os << "<" << (name != nullptr ? name : XTNR2str(XTNR_NULL)); // JSON root has no name
     // bool ForAllBinParams(OnBinParam_t on_param,void *element,void *userdata)
     if (!CTX->src->ForAllBinParams(s_OnBinParam2Stream,element,userdata))
     {
@@ -216,6 +217,8 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 // value info
     XML_Binary_Type value_type;
     int value_size = 0;
+    name = CTX->src->getNodeName(element);
+    if (name == nullptr) name = XTNR2str(XTNR_NULL);
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
     if (value_type == XBT_UNKNOWN) // source has only text values
     {
@@ -230,7 +233,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
             CTX->os << ">";
             // void XBT_ToStringStream(XML_Binary_Type type,const char *data,std::ostream &os)
             XBT_ToXMLStream(value_type,value,CTX->os);
-            CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+            CTX->os << "</" << name << ">\n";
         }
     else
     {
@@ -242,7 +245,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
             CTX->os << "\n";    
         }
         for(int t = 0;t < deep;t++) CTX->os << "\t";
-        CTX->os << "</" << CTX->src->getNodeName(element) << ">\n";
+        CTX->os << "</" << name << ">\n";
     }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From 84747e1255ded9b16e079f992ee97e0b384909c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 80/98] fix: values of live document are copied when it is
 converted to xbw

---
 src/bin_xml_creator.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 764b619..41f51c8 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1231,6 +1231,19 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     }
     else
     { // xbw2xbw variant
+        int stored_size = XBT_IS_4(tag_type) ? sizeof(int32_t) : XBT_FIXEDSIZE(tag_type);
+        if (tag_type == XBT_STRING)
+            stored_size = value_size+1; // with terminating character
+        else if (XBT_IS_VARSIZE(tag_type))
+            stored_size = sizeof(int32_t)+value_size;
+
+        ASSERT_NO_(2161,bw->makeSpace(sizeof(BW_element)+XBT_Size2(tag_type,value_size)+8/*max align*/),_this->write_failed = true;return);
+        BW_element *dst = pool->new_element(tag_type,value_size);
+        ASSERT_NO_(2162,dst != nullptr,_this->write_failed = true;return);
+        dst->identification = id;
+        dst->flags = flags;
+        memcpy(dst+1,value,stored_size);
+        node_info->dst_bw_element = dst;
     }
 //-----------------------------------------------
     if (st_type == SYMBOL_TABLE_NODES) 
-- 
2.43.0


From bbba409dda4233a9ebdddd512f6c2df60ca320f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 81/98] fix: tagData does not leave caller's data pointing to
 its finished buffer

---
 src/bin_write_plugin.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cc1c569..413fb3c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2703,6 +2703,8 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
     if (data.type == XBT_NULL)
         return tag(id);
 
+    const char *content = data.data;
+    int content_size = data.size;
     XML_Binary_Type tag_type = pool->getTagType(id);
     if (tag_type != data.type)
     {
@@ -2712,15 +2714,15 @@ BW_element* BW_plugin::tagData(int16_t id,XML_Binary_Data_Ref &data)
         char *p_limit = buffer + data.size + 64;
         // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
         ASSERT_NO_RET_NULL(2004,XBT_FromString(data.data,tag_type,&p,p_limit));
-        data.data = buffer;
-        data.size = p - buffer;
+        content = buffer; // buffer is valid only here - data of caller is not changed
+        content_size = p - buffer;
     }
 
-    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+content_size));
     if (result == nullptr) return nullptr; // error message already shown in allocate
     result->init(pool,id,tag_type,BIN_WRITE_ELEMENT_FLAG);
     
-    memcpy(result+1,data.data,data.size); // copy content
+    memcpy(result+1,content,content_size); // copy content
     
     return result;
 }
-- 
2.43.0


From ef2b4234499f0a21353348b35b9cc4ab2ebcc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 82/98] fix: fast registration ends with import, later names
 are searched

---
 src/bin_write_plugin.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 413fb3c..e8e841f 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2064,6 +2064,8 @@ bool BW_plugin::CheckExistingFile(int file_size)
         pool->tags.index = 0; // ASSERT_NO_RET_FALSE(2110,pool->tags.Open(pool));
     if (!pool->params.check(pool)) // DO NOT OPEN HERE - not ready to write yet
         pool->params.index = 0; // ASSERT_NO_RET_FALSE(2111,pool->params.Open(pool));
+    if (pool->tags.flags & BW_SYMBOLS_FAST_REG)   pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;     // import was interrupted
+    if (pool->params.flags & BW_SYMBOLS_FAST_REG) pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
 
 //    ASSERT_NO_RET_FALSE(1951,allRegistered()); // make tables and be ready for checking of registration
     // check pool->tags
@@ -2314,33 +2316,32 @@ bool BW_plugin::alterAttr(int16_t id,XML_Binary_Type type)
 }
 void BW_plugin::importTags(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
 
-    if (src == nullptr) return; // OK
-
     for(int i = 0;i < src->tag_symbols.count;i++)
         registerTag(
                 src->tag_symbols.getSymbol(i),
                 static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
 
-    if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->tags.flags &= ~BW_SYMBOLS_FAST_REG; // names registered later can be already there
 }
 
 void BW_plugin::importParams(XB_reader *src)
 {
+    if (src == nullptr) return; // OK
+
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
-    if (src == nullptr) return; // OK
 
     for(int i = 0;i < src->param_symbols.count;i++)
         registerParam(src->param_symbols.
             getSymbol(i),
             static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
 
-    if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->params.flags &= ~BW_SYMBOLS_FAST_REG; // names registered later can be already there
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5164fab2a116c76e4d8a73c85fa33f097c4d2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 83/98] fix: number too large for float is not stored as
 infinity

---
 src/bin_xml_types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index fd1d980..8653aed 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -486,10 +486,12 @@ static bool str2int(const char *src,int32_t &value)
 }
 
 static bool str2float(const char *src,float &value)
-// whole text must be number
+// whole text must be number and it must fit
 {
     char *end = nullptr;
+    errno = 0;
     value = strtof(src,&end);
+    if (errno == ERANGE && (value > 1 || value < -1)) return false; // overflow
     return end != src && *end == '\0' && strpbrk(src,"xX") == nullptr; // hexadecimal is not float
 }
 
-- 
2.43.0


From ccbb2b61dfd0d5dad1683a9fda82cdb0af2149dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 84/98] fix: dot in name of directory does not start an
 extension

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9d3d1c9..9a0f704 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -240,6 +240,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         return new_name;
     }
     const char *dot = strrchr(filepath,'.');
+    if (dot != nullptr && strchr(dot,'/') != nullptr) dot = nullptr; // it is in name of directory
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From 8eb308541f5face79ade43b20bea34d8748de35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 85/98] fix: time is detected only with space between date and
 time

---
 src/bin_xml_types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 8653aed..3c05792 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -186,11 +186,11 @@ XML_Binary_Type XBT_Detect(const char *value,bool verbose)
         return XBT_GUID;
     // 2021-06-15 22:41:40
     if (str_len == 19 && digits == 14 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':')
+            value[4] == '-' && value[7] == '-' && value[10] == ' ' && value[13] == ':' && value[16] == ':')
         return XBT_UNIX_TIME;
     // 2021-06-15 22:41:40.000
     if (str_len == 23 && digits == 17 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
+            value[4] == '-' && value[7] == '-' && value[10] == ' ' && value[13] == ':' && value[16] == ':' && value[19] == '.')
         return XBT_UNIX_TIME64_MSEC;
     // 2026-03-20T15:51:55.773Z
     if (str_len == 24 && digits == 17 && spaces == 0 && negative == 2 && colons == 2 &&
-- 
2.43.0


From f8ed9bc976f71d95f74452c1e2619d55a4ca8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 86/98] fix: document created always new does not take pool
 size of old one

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e8e841f..bcba7a3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1929,6 +1929,7 @@ bool BW_plugin::Initialize()
     }
     int file_size = (int)statbuf.st_size;
     ASSERT_NO_RET_FALSE(1100,file_size >= 0); // file should exist now
+    if (config_flags & BIN_WRITE_CFG_ALWAYS_CREATE_NEW) file_size = 0; // nothing is taken from old document, even it's pool size
 
     for(int pass = 0;pass < 2;pass++)
     {
-- 
2.43.0


From 525a6a0eab11987a01a8864f615a816ac2b01ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 87/98] fix: comments, CDATA sections and entities do not cut
 XML values

---
 src/bin_xml_plugin.cpp | 51 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..c9d3116 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -1,5 +1,6 @@
 #include <binary_xml/bin_xml_plugin.h>
 #include <assert.h>
+#include <string.h>
 
 namespace pklib_xml {
 
@@ -39,11 +40,54 @@ Bin_xml_plugin::~Bin_xml_plugin()
     xmlCleanupParser(); // není to nebezpečné?
 }
 
+// Text of element or attribute can be interrupted by comments, processing instructions and entity references.
+// I need every text as a single node.
+// returns false when there is reference to entity, which is not plain text
+static bool JoinTexts(xmlNode *parent)
+{
+    for(xmlNode *X = parent->children;X != nullptr;)
+    {
+        xmlNode *next = X->next;
+        if (X->type == XML_COMMENT_NODE || X->type == XML_PI_NODE)
+        {
+            xmlUnlinkNode(X);
+            xmlFreeNode(X);
+            X = next;
+            continue;
+        }
+        if (X->type == XML_ENTITY_REF_NODE)
+        {
+            xmlEntity *entity = xmlGetDocEntity(X->doc,X->name);
+            if (entity == nullptr || entity->etype != XML_INTERNAL_GENERAL_ENTITY || entity->content == nullptr
+                || strpbrk(reinterpret_cast<const char *>(entity->content),"<&") != nullptr) 
+            {
+                std::cerr << "error: entity " << X->name << " is not plain text\n";
+                return false;
+            }
+            xmlNode *text = xmlNewDocText(X->doc,entity->content);
+            if (text == nullptr) return false;
+            xmlReplaceNode(X,text);
+            xmlFreeNode(X);
+            X = text;
+        }
+        if (X->type == XML_TEXT_NODE && X->prev != nullptr && X->prev->type == XML_TEXT_NODE)
+            xmlTextMerge(X->prev,X);
+        else if (X->type == XML_ELEMENT_NODE)
+        {
+            for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
+                if (!JoinTexts(reinterpret_cast<xmlNode *>(A))) return false;
+            if (!JoinTexts(X)) return false;
+        }
+        X = next;
+    }
+    return true;
+}
+
 bool Bin_xml_plugin::Initialize()
 {
     if (!Bin_src_plugin::Initialize()) return false;
 // loading xml
-    doc = xmlReadFile(filename, NULL, 0);
+    doc = xmlReadFile(filename, NULL, XML_PARSE_NOCDATA);
     if (doc == nullptr)
     {
         std::cerr << "error: could not parse file " << filename << "\n";
@@ -55,6 +99,11 @@ bool Bin_xml_plugin::Initialize()
         std::cerr << "error: cannot find root element of file " << filename << "\n";
         return false;
     }
+    if (!JoinTexts(reinterpret_cast<xmlNode *>(doc)))
+    {
+        std::cerr << "error: cannot read all texts of file " << filename << "\n";
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From d8844f96fdb16978dc7f2d2aac3e12eea52f3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 88/98] fix: damaged links, counts and values of .xb file are
 refused

---
 src/bin_xml.cpp | 117 +++++++++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 46 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 328999a..42ba8bd 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,6 +22,58 @@ namespace pklib_xml
 {
 
 
+static bool s_CheckValue(XML_Binary_Type type,const char *value,const char *limit)
+// is the whole value placed before limit?
+{
+    if (type == XBT_NULL) return true;
+    switch (XBT_Align(type)) // each value is read from its aligned position
+    {
+        case 4: AA(value); break;
+        case 8: AA8(value); break;
+    }
+    const int64_t value_space = limit - value; // can be negative
+    if (value_space <= 0) return false;
+
+    int64_t value_size = 0;
+    if (XBT_IS_4(type))
+        value_size = 4;
+    else if (type == XBT_STRING)
+        value_size = strnlen(value,value_space)+1;
+    else if (XBT_IS_VARSIZE(type))
+    {
+        if (value_space < (int64_t)sizeof(int32_t)) return false;
+        value_size = *reinterpret_cast<const int32_t *>(value);
+        if (value_size < 0) return false;
+        value_size += sizeof(int32_t);
+        if (type == XBT_BLOB_STRING && value_size <= value_space 
+            && memchr(value + sizeof(int32_t),'\0',value_size - sizeof(int32_t)) == nullptr) return false; // text is not terminated
+    }
+    else
+    {
+        value_size = XBT_FIXEDSIZE(type);
+        if (value_size < 0)
+        {
+            std::cerr << "Error: Value type " << (int)type << " is not supported now!\n";
+            return false;
+        }
+    }
+    return value_size <= value_space;
+}
+
+static bool s_CheckChildren(XML_Item *X,XB_reader *R,const XML_Item *mark,int deep)
+// mark is an element on the path to X, it is moved at every power of 2 -> neverending path is always detected
+{
+    if ((deep & (deep-1)) == 0) mark = X;
+    for(int i = 0;i < X->childcount;i++)
+    {
+        XML_Item *child = X->getChildByIndex(i);
+        if (child == mark) return false;
+        if (!child->Check(R,false)) return false;
+        if (!s_CheckChildren(child,R,mark,deep+1)) return false;
+    }
+    return true;
+}
+
 bool XML_Item::Check(XB_reader *R,bool recursive) 
 // I want to check everything to be 100% sure, data are ok
 {
@@ -45,7 +97,9 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
     if (name <= XTNR_LAST) return false;
     if (name >= R->tag_symbols.count) return false;
 // size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
+    if (paramcount < 0 || childcount < 0) return false;
+    const int64_t header_size = sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t);
+    if (header_size >= length) return false; // not safe to access params, children or type of value
 // params check
     for(int p = 0;p < paramcount;p++)
     {
@@ -61,53 +115,20 @@ bool XML_Item::Check(XB_reader *R,bool recursive)
         if (PD->data < 0) return false; // reference out of node is not allowed here and yet
         if (PD->data >= length) return false; // pointer out of limit
         
-        const char *value = p0 + PD->data; // each value is read from its aligned position
-        switch (XBT_Align((XML_Binary_Type)PD->type))
-        {
-            case 4: AA(value); break;
-            case 8: AA8(value); break;
-        }
-        const int64_t value_space = p0 + length - value; // can be negative
-
-        int64_t value_size = 0;
-        switch (PD->type)
-        {
-            case XBT_STRING:
-                value_size = strnlen(value,value_space)+1;
-                break;
-            case XBT_INT64:
-            case XBT_UINT64:
-            case XBT_UNIX_TIME64_MSEC:
-            case XBT_DOUBLE:
-            case XBT_SHA1:
-            case XBT_GUID:
-            case XBT_IPv6:
-                value_size = XBT_FIXEDSIZE(PD->type);
-                break;
-            case XBT_BLOB:
-            case XBT_HEX:
-            case XBT_BLOB_STRING:
-                if (value_space < (int64_t)sizeof(int32_t)) return false;
-                value_size = *reinterpret_cast<const int32_t *>(value);
-                if (value_size < 0) return false;
-                value_size += sizeof(int32_t);
-                break;
-            default:
-                std::cerr << "Error: Parameter type " << (int)PD->type << " is not supported now!\n";
-                return false;
-        }
-        if (value_size > value_space) return false; // value is not whole inside of node
+        if (!s_CheckValue((XML_Binary_Type)PD->type,p0 + PD->data,p0 + length)) return false; // value is not whole inside of node
+    }
+// value check
+    if (!s_CheckValue((XML_Binary_Type)(uint8_t)p0[header_size],p0 + header_size + 1,p0 + length)) return false;
+// children check
+    for(int i = 0;i < childcount;i++)
+    {
+        const char *child = p0 + getChildren()[i];
+        if (child < reinterpret_cast<const char *>(R->doc)) return false;
+        if (child + sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
     }
-// TODO: check value
-
 
     if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
+        return s_CheckChildren(this,R,this,1);
             
     return true;
 }
@@ -284,6 +305,7 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
     if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
+    if (!X->Check(&R,true)) return nullptr; // damaged record
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
@@ -663,12 +685,13 @@ bool _XB_symbol_table::Load(XML_Item *container)
 {
     item_container = container;
     count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
+    if (count == INT32_NULL || count < 0) return false;
     if (count == 0) return true; // ok, no symbols
 
     type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
     if (type_count == INT32_NULL)
         type_count = 0;
+    if (type_count < 0) return false;
 
     
     int32_t size = -1; // size of whole data block - reference_array & strings
@@ -694,6 +717,8 @@ bool _XB_symbol_table::Load(XML_Item *container)
         int len = strnlen(value,max_len);
         if (len == max_len) return false; // unterminated string
     }
+    for(int s = 0;s < type_count;s++)
+        if (type_array[s] < XBT_NULL || type_array[s] >= XBT_LAST) return false;
     return true;
 }
 
-- 
2.43.0


From 9266b830a1ab44de6bb0e3c6f0b2cd38885b0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 89/98] fix: binary value of attribute is read from its aligned
 position

---
 src/bin_xml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 42ba8bd..b8fd16a 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -225,6 +225,11 @@ XML_Binary_Data_Ref XML_Param_Description::getData(XML_Item *X)
     else
     {
         D.data = reinterpret_cast<char*>(X) + data;
+        switch (XBT_Align(D.type)) // each value is read from its aligned position
+        {
+            case 4: AA(D.data); break;
+            case 8: AA8(D.data); break;
+        }
         if (type == XBT_STRING) D.size = 1+strlen(D.data);
         else if (XBT_IS_VARSIZE(type)) D.size = 4 + *reinterpret_cast<int32_t*>(D.data);
         else D.size = XBT_FIXEDSIZE(type);
-- 
2.43.0


From d87e4517afee28223899ef8414d9e88f061bac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 90/98] fix: appended record with place for appended records
 does not end

---
 src/bin_xml.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index b8fd16a..f603b92 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -74,6 +74,15 @@ static bool s_CheckChildren(XML_Item *X,XB_reader *R,const XML_Item *mark,int de
     return true;
 }
 
+static bool s_ContainsTecera(XML_Item *X)
+// is there placeholder for appended records?
+{
+    if (X->name == XTNR_ET_TECERA) return true;
+    for(int i = 0;i < X->childcount;i++)
+        if (s_ContainsTecera(X->getChildByIndex(i))) return true;
+    return false;
+}
+
 bool XML_Item::Check(XB_reader *R,bool recursive) 
 // I want to check everything to be 100% sure, data are ok
 {
@@ -311,6 +320,7 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
     if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
     if (!X->Check(&R,true)) return nullptr; // damaged record
+    if (s_ContainsTecera(X)) return nullptr; // record with records appended to it would never end
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
-- 
2.43.0


From 7d92b7721f23688387b9c6e5c2803b7562cbe539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 91/98] fix: unsupported type of stored value does not abort

---
 src/bin_xml_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 3c05792..74809c2 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1093,7 +1093,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 return ret;
             }
         default:
-            assert(false);
+            LOG_ERROR("Unsupported type %d",type);
             return 0;
     }
 }
-- 
2.43.0


From 6674fd8191ce6885e8c0085c32c318705c89ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 92/98] fix: getTime gives pointer to 8 bytes where 4 are
 stored

---
 include/binary_xml/bin_write_plugin.h | 2 +-
 src/bin_write_plugin.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a922002..b619329 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -220,7 +220,7 @@ public:
 
     int32_t     *getInt32();
     float       *getFloat();
-    time_t      *getTime();
+    uint32_t    *getTime(); // seconds are stored in 4 bytes
     int64_t     *getInt64();
     uint64_t    *getUInt64();
     GUID_t      *getGUID();
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index bcba7a3..0cc2241 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -990,7 +990,7 @@ float *BW_element::getFloat()
 }
 
 
-time_t *BW_element::getTime()
+uint32_t *BW_element::getTime()
 {
     if (THIS_IS_NULL) return nullptr;
 
@@ -1001,7 +1001,7 @@ time_t *BW_element::getTime()
         return nullptr;
     }
 
-    return reinterpret_cast<time_t*>(this+1); // just after this element
+    return reinterpret_cast<uint32_t*>(this+1); // just after this element
 }
 
 int64_t *BW_element::getInt64()
-- 
2.43.0


From 1d518ebc748a78bbf5e6d8a444b315fb17dc0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 93/98] fix: value of element without value or with older type
 is read behind it

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0cc2241..84871e5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -965,7 +965,7 @@ int32_t *BW_element::getInt32()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (!XBT_IS_4(attr_type))
+    if (!XBT_IS_4(attr_type) || !XBT_IS_4(value_type)) // value may be missing or of an older type
     {
         LOG_ERROR("[1173] +%d %s'type = %d = %s but XBT_INT32 is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -980,7 +980,7 @@ float *BW_element::getFloat()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_FLOAT)
+    if (attr_type != XBT_FLOAT || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[10430] +%d %s'type = %d = %s but XBT_FLOAT is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -995,7 +995,7 @@ uint32_t *BW_element::getTime()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UNIX_TIME)
+    if (attr_type != XBT_UNIX_TIME || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[2122] +%d %s'type = %d = %s but XBT_UNIX_TIME is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -1010,7 +1010,7 @@ int64_t *BW_element::getInt64()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
+    if ((attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC) || XBT_FIXEDSIZE(value_type) != 8)
     {
         //ASSERT_NO_RET_NULL(2026,attr_type == XBT_INT64 || value_type == XBT_INT64);// || attr_type == XBT_VARIANT);
         LOG_ERROR("[2026] +%d %s'type = %d/%d = %s/%s but XBT_INT64/XBT_UNIX_TIME64_MSEC is expected!",
@@ -1028,7 +1028,7 @@ uint64_t *BW_element::getUInt64()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UINT64)
+    if (attr_type != XBT_UINT64 || XBT_FIXEDSIZE(value_type) != 8)
     {
         LOG_ERROR("[2096] +%d %s'type = %d/%d = %s/%s but XBT_UINT64 is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
@@ -1043,7 +1043,7 @@ GUID_t *BW_element::getGUID()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_GUID)
+    if (attr_type != XBT_GUID || XBT_FIXEDSIZE(value_type) != 16)
     {
         LOG_ERROR("[10435] +%d %s'type = %d/%d = %s/%s but XBT_GUID is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
-- 
2.43.0


From 049accfe4379921241fa05308a5f643a5f6fff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 94/98] fix: attribute without value cannot be merged

---
 src/bin_write_plugin.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 84871e5..360d164 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -669,6 +669,17 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = pool->getAttrType(id);
 
+    if (data.type == XBT_NULL && attr_type != XBT_NULL)
+    { // attribute without value - the same as tagData
+        BW_element* attr      = allocate_element8(pool,0);
+        ASSERT_NO_RET_NULL(2163,attr != nullptr);
+
+        attr->init(pool,id,XBT_NULL,BIN_WRITE_ATTR_FLAG);
+
+        add(attr);
+        return this;
+    }
+
     if (data.type == XBT_STRING && attr_type != XBT_STRING)
     { // default conversion
         // this is not so easy
-- 
2.43.0


From a86055477e5f82ee6ce6babef7824b6e229b58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 95/98] fix: registerTag by name refuses a missing name and an
 unknown type

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 360d164..8282cc2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2217,6 +2217,9 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
 
 XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
 {
+    ASSERT_NO_RET_(2164,name != nullptr,XTNR_NULL);
+    ASSERT_NO_RET_(2165,type >= XBT_NULL && type < XBT_LAST,XTNR_NULL);
+
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-- 
2.43.0


From 085404df0fbf2b26fdd40b74b18f7383cdfdc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:20 +0000
Subject: [PATCH 96/98] fix: an attribute refused before the first element does
 not start its table

---
 src/bin_write_plugin.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8282cc2..c9a3544 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2265,9 +2265,6 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
     ASSERT_NO_RET_(2116,name != nullptr,XPNR_NULL);
     ASSERT_NO_RET_(2117,type >= XBT_NULL && type < XBT_LAST,XPNR_NULL);
 
-    if (pool->params.names_offset == 0) // empty
-        pool->params.names_offset = pool->allocator;
-
     int id;
     if ((pool->params.flags & BW_SYMBOLS_FAST_REG) == 0)
     {
@@ -2287,6 +2284,8 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
     }
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
+    if (pool->params.names_offset == 0) // empty
+        pool->params.names_offset = pool->allocator;
 // must be opened
     ASSERT_NO_RET_(2149,makeSpace(pool->params.getNamesSize(pool)+strlen(name)+16),XPNR_NULL);
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
-- 
2.43.0


From 1c1c978f67c7cc5d0ed72f39f7f939fe2293707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:21 +0000
Subject: [PATCH 97/98] fix: GetXB gives the name of the converted file for
 .wsdl too

---
 src/bin_xml_packer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index 7511879..f17d7f7 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -360,18 +360,15 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
         return false;
     }
 	
-    int len = strlen(xml_filename);
     // XML extension check
-    if (strcmp(dot,".wsdl") == 0) len--; // shorted!
-    else if (strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
+    if (strcmp(dot,".wsdl") != 0 && strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
     {
         *err_message = "expected file with .xml (or .xsd or .wsdl) extension!";
         return false;
     }
     // XB creation
     strcpy(xb_filename,xml_filename);
-    xb_filename[len-1] = 0;
-    xb_filename[len-2] = 'b';
+    strcpy(xb_filename+(dot-xml_filename),".xb");
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From c232c7022796e92862fad9ebe9d23a77b953abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 98/98] fix: the sequence of identifiers is started once, also
 when it passes through zero

---
 src/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 9a0f704..975fb11 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1315,6 +1315,7 @@ int base64_decode(const unsigned char *src,int src_size,char *dst,int dst_size)
 }
 
 static int64_t base_xor_value = 0;
+static bool    base_xor_value_set = false; // 0 is a value like any other: the sequence can pass through it
 
 static void s_init_base_xor_value()
 {
@@ -1323,13 +1324,14 @@ static void s_init_base_xor_value()
         base_xor_value = time(nullptr);
     else
         base_xor_value = (int64_t)tm0.tv_sec * 1000000000 + tm0.tv_nsec;
+    base_xor_value_set = true;
 }
 
 int64_t genI64()
 {
     int64_t value = static_cast<int64_t>(random()) << 31 | random();
 // this was not random enough
-    if (base_xor_value == 0) s_init_base_xor_value();
+    if (!base_xor_value_set) s_init_base_xor_value();
     value ^= base_xor_value++; // using sequence for increment
     return value;
 }
@@ -1337,7 +1339,7 @@ int64_t genI64()
 uint64_t genU64()
 {
     uint64_t value = static_cast<uint64_t>(random()) << 32 | random();
-    if (base_xor_value == 0) s_init_base_xor_value();
+    if (!base_xor_value_set) s_init_base_xor_value();
     value ^= base_xor_value++;
     return value;
 }
-- 
2.43.0

