From 5da6e7bde93f83132a08268ec82c43495d4692c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 001/178] fix: ht_probe counted an existing key whose value is
 NULL again

---
 src/hashtable/fast-ht.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..a683f90 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -490,9 +490,11 @@ ht_probe(ht* h, uint64_t k, void* v)
 {
     uint64_t hh  =__hash(k, h->n, h->salt);
     hb   *b  = &h->b[hh];
+    uint32_t n = b->nodes;
     void *nv = __insert(b, k, v);
 
-    if (nv) return nv;
+    // the existing value may be NULL
+    if (b->nodes == n) return nv;
 
     h->nodes++;
 
-- 
2.43.0


From dc894721dde8efe1ee602845ee7162f1cb592012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 002/178] fix: ht_remove left emptied buckets counted as
 filled, so the table grew forever

---
 src/hashtable/fast-ht.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index a683f90..5304294 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -583,6 +583,7 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->hv[slot] = 0;
         b->nodes--;
         h->nodes--;
+        if (b->nodes == 0) h->fill--;
         return 1;
     }
 
-- 
2.43.0


From 54fa2048ba24ae5ba222bad5f5859e936481730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:31 +0000
Subject: [PATCH 003/178] fix: fast-ht used one of the seven slots of each bag

---
 src/hashtable/fast-ht.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 5304294..2749711 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -165,7 +165,7 @@ static inline uint64_t
 __update_fp(uint64_t fp, uint64_t k, int slot)
 {
     uint8_t ctrl = __control(fp) & ~(1 << slot);
-    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __h2(fp);
+    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __fp(fp);
 
     return h2 | (_U64(ctrl) << 56);
 }
@@ -177,7 +177,7 @@ static inline uint64_t
 __clear_fp(uint64_t fp, int slot)
 {
     uint8_t ctrl = __control(fp) | (1 << slot);
-    uint64_t h2  = __h2(fp) & ~(_U64(0xff) << (8 * slot));
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
     return h2 | (_U64(ctrl) << 56);
 }
 
@@ -284,6 +284,7 @@ __insert(hb *b, uint64_t k, void *v)
 
     if (!bg) {
         bg   = __NEWZ(bag);
+        bg->fp = __mkfp(0, 0x7f);   // all slots are free
         slot = 0;
         b->bags++;
         SL_INSERT_HEAD(&b->head, bg, link);
@@ -321,6 +322,7 @@ __insert_quick(hb *b, uint64_t k, void *v)
 
     // Make a new bag and put our element there.
     g = __NEWZ(bag);
+    g->fp = __mkfp(0, 0x7f);    // all slots are free
     g->fp = __update_fp(g->fp, k, 0);
     g->hk[0] = k;
     g->hv[0] = v;
-- 
2.43.0


From 6d26f654d1e04b78791e7959aa77aaf6ad87010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 004/178] fix: hash table insertion kept its bucket lock on
 every early exit

---
 src/hashtable/hashtab.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..065d5aa 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -376,11 +376,17 @@ insert_internal(hash_table * tab, void ** p_data, int op)
 {
     void * data = *p_data;
     int retval  = -ENOMEM;
+    int grow    = 0;
     hash_node* e;
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
-    hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
+    hash_bucket* b;
+
+    // The table lock protects the bucket array against a concurrent
+    // resize - and the statistics.
+    lockmgr_lock(&tab->lock);
+    b = &tab->buckets[hash & (tab->size-1)];
 
     lockmgr_lock(&b->lock);
     SL_FOREACH(e, &b->head, link) {
@@ -428,14 +434,11 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     e->data = data;
     e->hash = hash;
     SL_INSERT_HEAD(&b->head, e, link);
-    lockmgr_unlock(&b->lock);
 
 
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -451,12 +454,15 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            grow = 1;
     }
 
-    lockmgr_unlock(&tab->lock);
-
 _done:
+    lockmgr_unlock(&b->lock);
+
+    if (grow) retval = resize(tab);
+
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
-- 
2.43.0


From aa233a181d1d0acb1325745f9780a5c0db82d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 005/178] fix: hash table lookup and removal raced with a
 concurrent resize

---
 src/hashtable/hashtab.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 065d5aa..cac3734 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -208,9 +208,10 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+    b     = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     SL_FOREACH(p, &b->head, link) {
@@ -226,6 +227,8 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     lockmgr_unlock(&b->lock);
 
     if (!ret) ++tab->stats.failed_lookups;
+    lockmgr_unlock(&tab->lock);
+
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,9 +252,10 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+    b      = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     p_next = &SL_FIRST(&b->head);
@@ -269,6 +273,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
     }
 
     lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
-- 
2.43.0


From f563a5733da91ee8642bf42b99b1f85726fc99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 006/178] fix: hash table insertion reported failure after
 inserting when growing failed

---
 src/hashtable/hashtab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index cac3734..cb130e5 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -465,7 +465,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
 _done:
     lockmgr_unlock(&b->lock);
 
-    if (grow) retval = resize(tab);
+    // The node is in the table whether or not there is memory to grow it.
+    if (grow) resize(tab);
 
     lockmgr_unlock(&tab->lock);
     return retval;
-- 
2.43.0


From 853145574504183a5b4b1698efd9564fc5d8b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 007/178] fix: hash_table_remove_if passed the predicate the
 address of the item pointer

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index cb130e5..f4af2f7 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -308,7 +308,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
-- 
2.43.0


From 9ad9c0af0cbbf499ea4d75ca63786bba4fb160be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 008/178] fix: sorted hash table iterator compared addresses of
 item pointers

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..8051665 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -315,7 +315,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
-- 
2.43.0


From f2c7b0077ca8dcc8f3b65fbf653b720565dbd2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 009/178] fix: sorted hash table iterator locked the table
 twice and ignored lack of memory

---
 src/hashtable/hashtab_iter.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 8051665..f32fb4c 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,13 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init) {
+        retval = (*it->op->init)(it, param);
+        if (retval < 0) {
+            tFREE(tab, it);
+            it = 0;
+        }
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -328,18 +333,18 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     sorted_iter * sorted = &it->un.sorted;
     size_t i, n;
     hash_cmp_f * cmp;
-    int ok = EOF;
 
     assert(tab);
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
+    // Our caller holds tab->lock
     sorted->max = tab->stats.nodes;
-    if (sorted->max == 0) goto _done;
+    if (sorted->max == 0) return 0;
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) return -ENOMEM;
 
     nodes = sorted->nodes;
     n     = tab->size;
@@ -363,11 +368,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     if (sorted->max > 1)
         qsort(sorted->nodes, sorted->max, sizeof sorted->nodes[0], qsort_cmp);
 
-    ok = 0;
-
-_done:
-    lockmgr_unlock(&tab->lock);
-    return ok;
+    return 0;
 }
 
 
-- 
2.43.0


From 79d2d99b0e92672c3a4256a7d6d3d456301b8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 010/178] fix: bucket iterator ignored the table's hash
 randomizer and stepped past the end

---
 src/hashtable/hashtab_iter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index f32fb4c..cdad0fd 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -444,7 +444,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
@@ -480,7 +480,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From 581e61c00f69e270673ed19c88d3859a225fa210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:40 +0000
Subject: [PATCH 011/178] fix: counting bloom filter forgot elements when a
 counter wrapped past 255

---
 src/hashtable/bloom.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..d36642a 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -162,6 +162,11 @@ hash_val(uint64_t v, uint64_t salt)
 #define UNITSIZE    (sizeof(uint8_t))
 #define UNITBITS    (8 * UNITSIZE)
 
+/*
+ * Largest value of a counting bloom filter's 8 bit counter
+ */
+#define COUNTER_MAX 0xff
+
 
 static inline int
 testbit(uint8_t* bm, uint64_t i)
@@ -249,7 +254,9 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // Counters stick at their max: wrapping back to zero would
+        // make the filter forget every element that shares the slot.
+        if (b->bitmap[j] < COUNTER_MAX) b->bitmap[j]++;
     }
 
     b->size++;
@@ -272,7 +279,8 @@ counting_bloom_remove(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
         if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
+            // We no longer know the true count of a saturated counter
+            if (b->bitmap[j] < COUNTER_MAX) b->bitmap[j] -= 1;
             r = 1;
         }
     }
-- 
2.43.0


From 594855b4042bbd83db9e3b35c7aae2bc3072a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:40 +0000
Subject: [PATCH 012/178] fix: counting bloom filter forgot other elements when
 an absent one was removed

---
 src/hashtable/bloom.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index d36642a..2c6a326 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -237,6 +237,8 @@ standard_bloom_find(bloom* b, uint64_t val)
 
 
 
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 /*
  * Probe():
  *   o if value not in table, add it
@@ -273,20 +275,21 @@ counting_bloom_remove(bloom* b, uint64_t val)
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
+
+    // Removing something that isn't there must not disturb the
+    // counters it shares with other elements.
+    if (!counting_bloom_find(b, val)) return 0;
 
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            // We no longer know the true count of a saturated counter
-            if (b->bitmap[j] < COUNTER_MAX) b->bitmap[j] -= 1;
-            r = 1;
-        }
+
+        // We no longer know the true count of a saturated counter
+        if (b->bitmap[j] < COUNTER_MAX) b->bitmap[j] -= 1;
     }
 
     b->size--;
-    return r;
+    return 1;
 }
 
 
-- 
2.43.0


From bb154d7f0f043c5e83ae7235934d6f93618fc451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:40 +0000
Subject: [PATCH 013/178] fix: scalable bloom filter's ninth and later levels
 started with a garbage element count

---
 src/hashtable/bloom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 2c6a326..48b9580 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -362,6 +362,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->m = msub;
     b->e = e;
 
+    b->size    = 0;
     b->bmsize  = bytes;
     b->flags   = 0;
 
-- 
2.43.0


From 31471f24c92c6c45907736e232ee49d5ea2884cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 014/178] fix: xor filters of fewer than 18 keys overran their
 fingerprint array

---
 src/hashtable/xorfilter.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..a9dce90 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -277,11 +277,12 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -301,11 +302,12 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
+    x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
-- 
2.43.0


From cd1f2f46ceb3a13e46a9d7efb16310d431cab9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 015/178] fix: Bloom_marshal replaced the old file when the new
 one could not be synced, and leaked on failure

---
 src/hashtable/bloom_marshal.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..532e561 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -559,7 +559,11 @@ Bloom_marshal(Bloom *b, const char *fname)
     snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
 
     fd = mkostemp(file, 0);
-    if (fd < 0) return -errno;
+    if (fd < 0) {
+        r = errno;
+        VECT_FINI(&m.offs);
+        return -r;
+    }
 
     if (ftruncate(fd, sz) < 0) {
         r = errno;
@@ -599,11 +603,19 @@ Bloom_marshal(Bloom *b, const char *fname)
      * Calculate checksum from start m.datasize
      */
     cksum(&m.ck, start+m.datasize, start, m.datasize);
-    VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
+    if (fsync(fd) < 0 || fdatasync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+
+    VECT_FINI(&m.offs);
+    if (close(fd) < 0) {
+        r = -errno;
+        unlink(file);
+        return r;
+    }
+
     if (rename(file, fname) < 0) {
         r = -errno;
         unlink(file);
@@ -613,6 +625,7 @@ Bloom_marshal(Bloom *b, const char *fname)
     return 0;
 
 fail:
+    VECT_FINI(&m.offs);
     close(fd);
     unlink(file);
     return -r;
-- 
2.43.0


From 847b25cb03e9beb4df2ac378a92619e904fd8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 016/178] fix: Xorfilter_marshal reported success when mmap or
 sync failed

---
 src/hashtable/xorfilter_marshal.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..92293dd 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -148,7 +148,7 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = -errno;
+        r = errno;
         goto fail;
     }
 
@@ -167,9 +167,16 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
+    if (fsync(fd) < 0 || fdatasync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+
+    if (close(fd) < 0) {
+        r = errno;
+        unlink(file);
+        return -r;
+    }
 
     if (rename(file, fname) < 0) {
         r = errno;
-- 
2.43.0


From a3e7e80c71828494058b05e75a0da96f40a8ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:59 +0000
Subject: [PATCH 017/178] fix: Xorfilter_unmarshal accepted a file too short
 for the filter it describes

---
 src/hashtable/xorfilt_internal.h  | 2 +-
 src/hashtable/xorfilter_marshal.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index d432294..a78f3ed 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -48,7 +48,7 @@ typedef struct Xorfilter Xorfilter;
 static inline uint64_t
 xorfilter_size(Xorfilter *x)
 {
-    size_t sz = 3 * x->size;
+    size_t sz = 3 * (size_t)x->size;
 
     return x->is_16 ? sz * 2 : sz;
 }
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 92293dd..6af7dba 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -116,8 +116,8 @@ rdhdr(uint8_t *p, Xorfilter *x)
     p += 2; // padding
 
     x->seed = dec_LE_u64(p); p += 8;
-    x->size = dec_LE_u64(p); p += 4;
-    x->n    = dec_LE_u64(p); p += 4;
+    x->size = dec_LE_u32(p); p += 4;
+    x->n    = dec_LE_u32(p); p += 4;
 
     uint64_t pad = pagesz() - (p - st);
     return p + pad;
@@ -241,8 +241,8 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
         goto fail1;
     }
 
-    // Sanity check.
-    if ((st.st_size - SHASIZE) < (off_t)xorfilter_size(&zx)) {
+    // Sanity check: header page + filter + checksum
+    if ((uint64_t)st.st_size != (pagesz() + xorfilter_size(&zx) + SHASIZE)) {
         r = E2BIG;
         goto fail1;
     }
-- 
2.43.0


From 180c0ae5f1d500dae4b08931ec143cecda105656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 018/178] fix: deleting a memory mapped xor filter leaked its
 mapping

---
 src/hashtable/xorfilt_internal.h  | 2 ++
 src/hashtable/xorfilter.c         | 2 ++
 src/hashtable/xorfilter_marshal.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index a78f3ed..68f7d62 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -41,6 +41,8 @@ struct Xorfilter {
     uint32_t n;     // number of elements
     uint8_t  is_16;
     uint8_t  is_mmap;
+    void    *map;   // if mmap'd: start of the mapping
+    size_t   mapsz; // and its size
 };
 typedef struct Xorfilter Xorfilter;
 
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index a9dce90..206f130 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -43,6 +43,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 #include "fast/vect.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
@@ -351,6 +352,7 @@ Xorfilter_bpe(Xorfilter *x)
 void
 Xorfilter_delete(Xorfilter *x)
 {
+    if (x->is_mmap) munmap(x->map, x->mapsz);
     if (x->ptr && !x->is_mmap) DEL(x->ptr);
     DEL(x);
 }
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 6af7dba..bf23059 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -255,6 +255,8 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     if (do_mmap) {
         zx.ptr     = p;
         zx.is_mmap = 1;
+        zx.map     = mptr;
+        zx.mapsz   = st.st_size;
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-- 
2.43.0


From 0d257eaa530836781bdde36f7c45c34841906d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 019/178] fix: deleting a memory mapped bloom filter leaked its
 mapping

---
 src/hashtable/bloom.c          |  4 ++++
 src/hashtable/bloom_internal.h |  2 ++
 src/hashtable/bloom_marshal.c  | 11 +++++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 48b9580..55f6053 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -122,6 +122,7 @@
 #include <limits.h>
 #include <inttypes.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 
 #include "utils/utils.h"
 #include "utils/bloom.h"
@@ -363,6 +364,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->e = e;
 
     b->size    = 0;
+    b->map     = 0;
     b->bmsize  = bytes;
     b->flags   = 0;
 
@@ -381,6 +383,8 @@ bloom_fini(bloom* b)
 {
     if (!(b->flags & BLOOM_BITMAP_MMAP))
         DEL(b->bitmap);
+
+    if (b->map) munmap(b->map, b->mapsz);
 }
 
 
diff --git a/src/hashtable/bloom_internal.h b/src/hashtable/bloom_internal.h
index 92b116f..9b1480a 100644
--- a/src/hashtable/bloom_internal.h
+++ b/src/hashtable/bloom_internal.h
@@ -69,6 +69,8 @@ struct bloom
     uint32_t __pad0;    // padding
     double   e;         // expected error rate
 
+    void    *map;       // if set: file mapping to release with this filter
+    size_t   mapsz;     // size of the mapping
 };
 typedef struct bloom bloom;
 
diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 532e561..1cce63f 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -726,6 +726,17 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     *p_b = m.b;
 
     if (!do_mmap) munmap(mptr, st.st_size);
+    else {
+        // The first filter owns the mapping - for all of them.
+        bloom *f = m.b->filter;
+        if (m.b->typ == BLOOM_TYPE_SCALE) {
+            scalable_bloom *sb = m.b->filter;
+            f = &sb->bfa[0];
+        }
+
+        f->map   = mptr;
+        f->mapsz = st.st_size;
+    }
 
 
     /*
-- 
2.43.0


From 2d41657899c4e4f513d4fb9d6958606800a342e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 020/178] fix: Bloom_unmarshal trusted filter sizes and offsets
 read from the file

---
 src/hashtable/bloom.c         |  1 +
 src/hashtable/bloom_marshal.c | 46 ++++++++++++++++++++++++++++++++---
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 55f6053..d51a98c 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -678,6 +678,7 @@ __free_bloom(Bloom *b)
 
         case BLOOM_TYPE_COUNTING:
         case BLOOM_TYPE_QUICK:
+            if (b->typ != BLOOM_TYPE_SCALE) bloom_fini(b->filter);
             DEL(b->filter);
             DEL(b);
             break;
diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1cce63f..c08b104 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -92,6 +92,12 @@ extern int fdatasync(int);
  */
 #define FILT_HDRSIZ 40
 
+/*
+ * Largest number of hash functions any error rate can ask for:
+ * the smallest double is 2^-1074.
+ */
+#define MAX_K       1074
+
 #define BLOOM_BLAKE2b_SIZE    crypto_generichash_BYTES
 #define BLOOM_SHA256_SIZE     crypto_hash_sha256_BYTES
 
@@ -368,9 +374,29 @@ wrfilter(uint8_t * start, offpair *o, bloom *b)
     memcpy(d, b->bitmap, b->bmsize);
 }
 
-// Read filter data from offset pair 'o' into bloom 'b'.
+/*
+ * Return true if the parameters of filter 'b' read from a file make
+ * sense and its bitmap - which starts at 'off' - lies within the
+ * 'sz' bytes of filter data.
+ */
+static int
+is_valid_filter(bloom *b, int typ, uint64_t off, uint64_t sz)
+{
+    uint64_t slots = b->bmsize;
+
+    if (b->m == 0 || b->k == 0 || b->k > MAX_K)    return 0;
+    if (off > sz  || b->bmsize > (sz - off))       return 0;
+
+    // counting filters use a byte per slot, the rest use a bit.
+    if (typ != BLOOM_TYPE_COUNTING) slots *= 8;
+
+    return b->m <= (slots / b->k);
+}
+
+// Read filter data from offset pair 'o' into bloom 'b'. There are 'sz'
+// bytes of filter data starting at 'start'.
 static int
-rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
+rdfilter(uint8_t *start, uint64_t sz, offpair *o, bloom *b, int typ, int dommap)
 {
     uint8_t * h = start + o->hdroff;
     uint8_t * d = start + o->dataoff;
@@ -387,6 +413,8 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
 
     assert((h - z) == FILT_HDRSIZ);
 
+    if (!is_valid_filter(b, typ, o->dataoff, sz)) return -EBADF;
+
     if (dommap) {
         b->bitmap = d;
         b->flags  = BLOOM_BITMAP_MMAP;
@@ -466,6 +494,8 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
         // Sanity check
         if (n > 1048576)            return -E2BIG;
+        if (n == 0 || scale == 0)   return -EBADF;
+        if (!(r > 0.0 && r <= 1.0)) return -EBADF;
 
         avail -= 16;
         if (avail  < (n * 8)) return -EBADF;
@@ -490,6 +520,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
         p     += 16;    // skip over everything else
         avail -= 16;
+        if (avail < 8) return -EBADF;
 
         VECT_INIT(&m->offs, 1);
 
@@ -707,7 +738,7 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         VECT_FOR_EACHi(&m.offs, i, o) {
             bloom *f = &sb->bfa[i];
 
-            r = rdfilter(start, o, f, do_mmap);
+            r = rdfilter(start, dsize, o, f, m.b->typ, do_mmap);
             if (r < 0) {
                 errno = -r;
                 goto fail0;
@@ -717,7 +748,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        r = rdfilter(start, dsize, o, f, m.b->typ, do_mmap);
+        if (r < 0) {
+            errno = -r;
+            goto fail0;
+        }
     }
 
     VECT_FINI(&m.offs);
@@ -747,9 +782,12 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     return 0;
 
 fail0:
+    r = errno;
     VECT_FINI(&m.offs);
     munmap(mptr, st.st_size);
     if (m.b) __free_bloom(m.b);
+    close(fd);
+    return -r;
 
 fail:
     r = -errno;
-- 
2.43.0


From 16b58631be179c4ca01510362d22d04164d29da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 021/178] fix: a memory pool of one block per chunk aborted

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..0f6cc65 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size > a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From be0f3d6138732476b5730de56e7e9d3c4ed67fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 022/178] fix: mempool_new leaked the pool and returned it when
 its first chunk could not be allocated

---
 src/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 0f6cc65..21f1a93 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -397,8 +397,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        tr->free(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
-- 
2.43.0


From 724ea85d8295de7fe8e514344f71aba1bf482636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 023/178] fix: mempool_new_from_mem wrote past a memory area
 too small for the pool

---
 src/mempool.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mempool.c b/src/mempool.c
index 21f1a93..81b8bf9 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -435,13 +435,14 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
      * the pool must be big enough to hold a chunk and at least one
      * aligned block.
      */
-    if (poolsize < (block_size + MINALIGNMENT + sizeof *ch)) return -ENOMEM;
+    if (poolsize < ((uint64_t)block_size + MINALIGNMENT + sizeof *ch)) return -ENOMEM;
 
     ch = (memchunk*)ptr;
     poolsize -= sizeof *ch;
@@ -490,13 +491,17 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize <= (sizeof *a + (ptr - pUCHAR(pool)))) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
     poolsize -= sizeof *a;
 
+    int r = mempool_init_from_mem(a, block_size, ptr, poolsize);
+    if (r < 0) return r;
+
     *p_a = a;
-    return mempool_init_from_mem(a, block_size, ptr, poolsize);
+    return 0;
 }
 
 
-- 
2.43.0


From 248fb31552924f055cb09635af40ea436cfe8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 024/178] fix: a huge memory pool block size wrapped to zero
 when aligned

---
 src/mempool.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 81b8bf9..dc1bd14 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -22,6 +22,7 @@
 #include <stddef.h>
 #include <inttypes.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <assert.h>
 
@@ -183,6 +184,11 @@ typedef union min_alignment min_alignment;
  */
 #define MIN_OBJ_SIZE    (sizeof(mru_node))
 
+/*
+ * Largest block size that can still be rounded up to the alignment.
+ */
+#define MAX_OBJ_SIZE    (UINT_MAX - MINALIGNMENT + 1)
+
 
 /*
  * Minimum number of blocks to allocate from the OS in one shot
@@ -326,6 +332,7 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
      * Make sure block_size has minimum qualifications.
      */
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
+    if (block_size > MAX_OBJ_SIZE) return -ENOMEM;
 
 
     block_size = _Align(uint_t, block_size);
@@ -426,6 +433,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
     memset(a, 0, sizeof *a);
 
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
+    if (block_size > MAX_OBJ_SIZE) return -ENOMEM;
 
     block_size = _Align(uint_t, block_size);
 
-- 
2.43.0


From a136b4cf146acfb991b67df319d0f6976eaef781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 025/178] fix: huge arena requests overflowed and returned a
 short block

---
 src/arena.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..b79392d 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -83,6 +83,9 @@ union align
 
 #define SYS_ALIGNMENT   (sizeof(union align))
 
+/* Largest request whose chunk size doesn't overflow */
+#define MAX_ALLOC       (SIZE_MAX / 32)
+
 
 
 int
@@ -127,6 +130,7 @@ arena_alloc(arena_t a, size_t nbytes)
     void * mem = 0;
 
     if (!a) return 0;
+    if (nbytes > MAX_ALLOC) return 0;
 
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
-- 
2.43.0


From 892a9776fedb82811a779fcd250148036db3cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 026/178] fix: arena_strdup wrote to NULL when memory ran out

---
 inc/utils/arena.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/arena.h b/inc/utils/arena.h
index 63293d5..6a3b02e 100644
--- a/inc/utils/arena.h
+++ b/inc/utils/arena.h
@@ -75,7 +75,7 @@ arena_strdup(arena_t a, const char* s)
 {
     size_t n = strlen(s) + 1;
     void*  p = arena_alloc(a, n);
-    return (char *)memcpy(p, s, n);
+    return p ? (char *)memcpy(p, s, n) : 0;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From a63b32d2afaaa7488bd8a7c00e73e585e2a3752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 027/178] fix: an arena with a huge chunk size overflowed its
 chunks

---
 src/arena.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index b79392d..57fc20f 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -147,6 +147,8 @@ arena_alloc(arena_t a, size_t nbytes)
     /* allocate a new node; but, try to allocate a few more bytes
      * to satisfy atleast few more such allocations.  */
     chunk = nbytes < a->chunk_size ? a->chunk_size : nbytes * 16;
+    if (chunk > (SIZE_MAX - sizeof(arena_node))) goto _end;
+
     n     = (arena_node *) malloc(sizeof(arena_node) + chunk);
     if (!n) goto _end;
 
-- 
2.43.0


From a7d64248258f7d0683751699295f49b4898870c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 028/178] fix: growing a vector copied from an empty one never
 ended

---
 inc/fast/vect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..b5a5d71 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -113,6 +113,7 @@ extern "C" {
                         do {                                        \
                             size_t n_ = v_->cap;                    \
                             if  (want_ >= n_) {                     \
+                                if (n_ == 0) n_ = 1;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
-- 
2.43.0


From 340886cecfe5363dd81807e016a26b0bd6b63375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 029/178] fix: growing a vector left some of its new slots
 uninitialized

---
 inc/fast/vect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index b5a5d71..96e38f7 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -116,7 +116,7 @@ extern "C" {
                                 if (n_ == 0) n_ = 1;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
-                                memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
+                                memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->size));\
                                 v_->cap = n_;          \
                             }                          \
                         } while (0)
-- 
2.43.0


From b6a3dd5fa579e5bfa78a858741280ab670913f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 030/178] fix: VECT_PUSH_FRONT of a value of another type than
 the element's corrupted the vector

---
 inc/fast/vect.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 96e38f7..38669c9 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -177,12 +177,13 @@ extern "C" {
  */
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
+                                            typeof(v_->arr[0]) e_ = (e);            \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr[0]) * start_ = v_->arr;  \
+                                            typeof(v_->arr[0]) * p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
-                                            *p_ = (e);                   \
+                                            *p_ = e_;                    \
                                             v_->size++;                  \
                                       } while (0)
 
-- 
2.43.0


From 0f4c6e28b3705224ef915020e8c66a454a1bcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 031/178] fix: VECT_SAMPLE wrote to freed memory when it had to
 grow the destination

---
 inc/fast/vect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 38669c9..2e818cc 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -285,10 +285,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
+                                            __vect_RESERVE(a_, k_);             \
                                             typeof(a_->arr) x_ = a_->arr;       \
                                             typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
-                                            __vect_RESERVE(a_, k_);             \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From 2c7f02406f2fcfbab3445ec1657365b10bff4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 032/178] fix: VECT_SAMPLE refused to sample all elements

---
 inc/fast/vect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 2e818cc..132007c 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -283,7 +283,7 @@ extern "C" {
 #define VECT_SAMPLE(d, s, k, rnd) ({    int z_    = 0;                          \
                                         size_t k_ = (k);                        \
                                         typeof(s) b_ = (s);                     \
-                                        if (k_ <  b_->size) {                   \
+                                        if (k_ <= b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
                                             __vect_RESERVE(a_, k_);             \
                                             typeof(a_->arr) x_ = a_->arr;       \
-- 
2.43.0


From 9c93673b8f09e9b968856f2d835ab82af053bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 033/178] fix: llist.h used INIT_LIST_HEAD without defining it

---
 inc/fast/llist.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..c252c27 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -70,6 +70,8 @@ static inline void list_init(list_head* l)
     l->next = l->prev = l;
 }
 
+#define INIT_LIST_HEAD(l)  list_init(l)
+
 /*
  * Insert a new entry between two known consecutive entries.
  *
-- 
2.43.0


From ba152976905935e106e0500bc77fdfb37752bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 034/178] fix: DL_INSERT_AFTER, DL_INSERT_BEFORE and DL_REMOVE
 corrupted the list when given DL_FIRST or DL_LAST

---
 inc/fast/list.h | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/inc/fast/list.h b/inc/fast/list.h
index c6f362a..28d9bfc 100644
--- a/inc/fast/list.h
+++ b/inc/fast/list.h
@@ -336,12 +336,14 @@ struct {                                                \
  * Insert 'elm' after 'inlist'
  */
 #define DL_INSERT_AFTER(head,inlist,elm,field) do {  \
-    if ( ((elm)->field.next = (inlist)->field.next) )   \
-        (inlist)->field.next->field.prev = (elm);       \
+    typeof(inlist) dl_inlist = (inlist);                \
+    typeof(elm) dl_elm = (elm);                         \
+    if ( (dl_elm->field.next = dl_inlist->field.next) )   \
+        dl_inlist->field.next->field.prev = dl_elm;       \
     else                                                \
-        (head)->last = (elm);                           \
-    (elm)->field.prev = (inlist);                       \
-    (inlist)->field.next = (elm);                       \
+        (head)->last = dl_elm;                           \
+    dl_elm->field.prev = dl_inlist;                       \
+    dl_inlist->field.next = dl_elm;                       \
 } while (0)
 
 
@@ -349,13 +351,15 @@ struct {                                                \
 /*
  * Insert 'elm' before 'inlist'
  */
-#define DL_INSERT_BEFORE(head,inlist,elm,field) do { \
-    if ( ((elm)->field.prev = (inlist)->field.prev) )   \
-        (inlist)->field.prev->field.next = (elm);       \
+#define DL_INSERT_BEFORE(head,inlist,elm,field) do {  \
+    typeof(inlist) dl_inlist = (inlist);                \
+    typeof(elm) dl_elm = (elm);                         \
+    if ( (dl_elm->field.prev = dl_inlist->field.prev) )   \
+        dl_inlist->field.prev->field.next = dl_elm;       \
     else                                                \
-        (head)->first = (elm);                          \
-    (elm)->field.next = (inlist);                       \
-    (inlist)->field.prev = (elm);                       \
+        (head)->first = dl_elm;                          \
+    dl_elm->field.next = dl_inlist;                       \
+    dl_inlist->field.prev = dl_elm;                       \
 } while (0)
 
 
@@ -363,15 +367,16 @@ struct {                                                \
 /*
  * Remove an arbitrary node in the list.
  */
-#define DL_REMOVE(head,elm,field)               do { \
-    if ( (elm)->field.next )                            \
-        (elm)->field.next->field.prev = (elm)->field.prev; \
+#define DL_REMOVE(head,elm,field)               do {  \
+    typeof(elm) dl_elm = (elm);                         \
+    if ( dl_elm->field.next )                            \
+        dl_elm->field.next->field.prev = dl_elm->field.prev; \
     else                                                \
-        (head)->last = (elm)->field.prev;               \
-    if ( (elm)->field.prev )                            \
-        (elm)->field.prev->field.next = (elm)->field.next; \
+        (head)->last = dl_elm->field.prev;               \
+    if ( dl_elm->field.prev )                            \
+        dl_elm->field.prev->field.next = dl_elm->field.next; \
     else                                                \
-        (head)->first = (elm)->field.next;              \
+        (head)->first = dl_elm->field.next;              \
 } while (0)
 
 
-- 
2.43.0


From 3de10b999597b04c54fee60b5358a526db74fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 035/178] fix: fast buffers used macro RENEW, which does not
 exist

---
 inc/fast/buf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..aebf917 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -24,6 +24,7 @@ extern "C" {
 
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include "utils/new.h"
 
 
@@ -76,7 +77,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From 60990d09bbb5d22c9f5df5b337b8e588c9dbfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 036/178] fix: minheap used a swap() of array elements that
 nothing defines

---
 inc/utils/minheap.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 380be13..59b6e77 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -24,6 +24,13 @@ private:
     int n;      // Number of elements now in the heap
     void siftdown (int);  // Put element in its correct place
 
+    static void swap (Elem * h, int a, int b)
+    {
+        Elem t = h[a];
+        h[a] = h[b];
+        h[b] = t;
+    }
+
 public:
     minheap (Elem * h, int num, int max) // Constructor
     {
-- 
2.43.0


From 7ff285bddd957abcc1aa5f14e2426cdf687681aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 037/178] fix: minheap::remove moved the replacement up by one
 level only

---
 inc/utils/minheap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 59b6e77..455614b 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -143,9 +143,12 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
     swap (Heap, pos, --n);         // Swap with last value
 
     while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
-        swap (Heap, pos, parent (pos));      // Push up if large key
+    {
+        swap (Heap, pos, parent (pos));      // Push up if small key
+        pos = parent (pos);
+    }
 
-    siftdown (pos);           // Push down if small key
+    siftdown (pos);           // Push down if large key
 
     it = Heap[n];
 
-- 
2.43.0


From 7069dbd45c325333f8646c0e0131d9290cdf062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 038/178] fix: minheap::remove of the last element read outside
 the heap

---
 inc/utils/minheap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 455614b..17e4f13 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -142,6 +142,11 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     swap (Heap, pos, --n);         // Swap with last value
 
+    it = Heap[n];
+
+    if (pos == n)
+        return true;           // Removed the last element
+
     while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
     {
         swap (Heap, pos, parent (pos));      // Push up if small key
@@ -150,8 +155,6 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     siftdown (pos);           // Push down if large key
 
-    it = Heap[n];
-
     return true;
 }
 
-- 
2.43.0


From 1cb1a85fa239575e3fdf407d7d4f0058ebecc455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 039/178] fix: FQ_DYN_INIT did not compile

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From b0d7a98b7cdf2c8dc771d38eb85d44023f084f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 040/178] fix: MPMC_QUEUE_RESET and MPMC_QUEUE_CAP did not
 compile

---
 inc/fast/mpmc_bounded_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..54db710 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -225,12 +225,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
@@ -345,7 +345,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 74529c6511fea77272787ce6a8f1ceca7ad57f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 041/178] fix: size, full and empty of an mpmc queue were wrong
 while a thread waited on it

---
 inc/fast/mpmc_bounded_queue.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 54db710..f8be982 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -133,12 +133,12 @@ __mpmc_q_len(__mpmc_q *q) {
     uint64_t hd = atomic_load_explicit(&q->head, memory_order_relaxed),
              tl = atomic_load_explicit(&q->tail, memory_order_relaxed);
 
-    if (hd < tl) {
-        // wraparound
-        uint64_t diff = ~((uint64_t)0) - tl;
-        return diff + hd;
-    }
-    return (size_t)(hd - tl);
+    // Blocked consumers push the tail past the head and blocked producers
+    // push the head more than 'sz' past the tail.
+    int64_t n = (int64_t)(hd - tl);
+    if (n < 0) return 0;
+
+    return (uint64_t)n > q->sz ? (size_t)q->sz : (size_t)n;
 }
 
 // best effort - since we have concurrent readers/writers
-- 
2.43.0


From 654c42cbc670e916c59a47c0211110b33a568a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 042/178] fix: a signal made a sync queue deliver or overwrite
 slots it must not touch

---
 inc/fast/syncq.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..fecd050 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -26,6 +26,7 @@ extern "C" {
 
 #include <stdint.h>
 #include <assert.h>
+#include <errno.h>
 #include <semaphore.h>
 #include <pthread.h>
 
@@ -82,6 +83,14 @@ __syncobj_init(__syncobj* s, size_t n)
 }
 
 
+// Wait for a semaphore; signals don't end the wait.
+static inline void
+__syncobj_wait(sem_t *s)
+{
+    while (sem_wait(s) != 0 && errno == EINTR) { }
+}
+
+
 /**
  * Initialize a SyncQ 'q0'.
  */
@@ -109,7 +118,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notfull); \
+                                    __syncobj_wait(&s_->notfull); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
@@ -126,7 +135,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_DEQ(q0)      ({\
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notempty); \
+                                    __syncobj_wait(&s_->notempty); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t r_ = s_->rd++;\
                                     if (s_->rd == s_->sz) s_->rd = 0;\
-- 
2.43.0


From 1c03aa07a7218778c18abb9459f12c6dd05e697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 043/178] fix: posix/job.h did not compile as C++

---
 inc/posix/job.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/posix/job.h b/inc/posix/job.h
index d5203d4..7a18778 100644
--- a/inc/posix/job.h
+++ b/inc/posix/job.h
@@ -37,7 +37,7 @@
 #include "fast/syncq.h"
 
 #ifdef __cplusplus
-extern "C"
+extern "C" {
 #endif
 
 
-- 
2.43.0


From 2896625ce80f796a088d68f4dfcd30f86e35d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 044/178] fix: job_manager_destroy and work_manager_destroy
 were declared but never defined

---
 src/posix/job.c  | 2 +-
 src/posix/work.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index 33f8bb8..fecae6b 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -137,7 +137,7 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
  * for all threads to exit.
  */
 void
-job_manager_cleanup(job_manager* jm)
+job_manager_destroy(job_manager* jm)
 {
     SYNCQ_FINI(&jm->q);
     sem_destroy(&jm->done);
diff --git a/src/posix/work.c b/src/posix/work.c
index dd9811a..d4f3551 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -145,8 +145,8 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
  * Delete and destroy a work manager. Caller's responsibility to wait
  * for all threads to exit.
  */
-void
-work_manager_cleanup(work_manager* wm)
+int
+work_manager_destroy(work_manager* wm)
 {
     int i;
 
@@ -158,7 +158,9 @@ work_manager_cleanup(work_manager* wm)
     }
 
     sem_destroy(&wm->done);
+    pthread_mutex_destroy(&wm->lock);
     DEL(wm->ctx);
+    return 0;
 }
 
 
-- 
2.43.0


From 47526f5ba9ba483d8fe3115f62d00dc1f71e27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:22 +0000
Subject: [PATCH 045/178] fix: a job or work manager whose threads could not
 all be created left the others running

---
 src/posix/job.c  | 5 +++++
 src/posix/work.c | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/posix/job.c b/src/posix/job.c
index fecae6b..cafc01a 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -124,6 +124,11 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         if ((r = pthread_create(&t->id, 0, thread_func, t)) != 0)
         {
             error(0, r, "job manager coulnd't create thread-%d", i);
+
+            /* end the threads we did start */
+            jm->nthreads = i;
+            job_manager_wait(jm);
+            job_manager_destroy(jm);
             return -r;
         }
     }
diff --git a/src/posix/work.c b/src/posix/work.c
index d4f3551..cf22b01 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -134,7 +134,14 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         wc->done    = &wm->done;
 
         if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0)
+        {
+            /* end the threads we did start */
+            SYNCQ_FINI(&wc->q);
+            wm->nthreads = i;
+            work_manager_wait(wm);
+            work_manager_destroy(wm);
             return -r;
+        }
     }
 
     return nthreads;
-- 
2.43.0


From 250c2fbf4541db204e2bc79843e5beb9f8030683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 046/178] fix: Pack and Unpack refused every repeat count of
 two or more digits

---
 src/pack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..e148c2c 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -163,13 +163,13 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 
 // extract a length-prefix from 'fmt' starting with the digit in 'c'.
 #define __len_prefix(c, fmt) ({\
-                                const size_t max = ~((size_t)0) / 10;       \
+                                const size_t max = ~((uint32_t)0) / 10;     \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (c = *++fmt; c; c = *++fmt) {           \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
-                                            (nn == max && v > (~((size_t)0) % 10))) {   \
+                                            (nn == max && v > (~((uint32_t)0) % 10))) {   \
                                         return -E2BIG;                      \
                                     }                                       \
                                     nn *= 10;                               \
-- 
2.43.0


From 6743892507fff613b32816e51974548a9e90790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 047/178] fix: Pack and Unpack read outside their tables for
 format characters outside 1..z or a count that ends the format

---
 src/pack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index e148c2c..ca80676 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -859,6 +859,8 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From 6565e093655dbada0c0a7ca7e4bfa79b740cab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 048/178] fix: Pack encoded the pointer instead of the element
 for a variable length array of one

---
 src/pack.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index ca80676..beabe59 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -179,6 +179,31 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
                             })
 
 
+// Return the first element of the array 'arg'; strings and pads are
+// not arrays.
+static void *
+getelem(const packer *p, void *arg)
+{
+    uint16_t u16;
+    uint32_t u32;
+    uint64_t u64;
+
+    switch (p->typ) {
+        case 'x': case 'z': case 'Z':
+            return arg;
+
+        default:
+            break;
+    }
+
+    switch (p->size) {
+        case 1:  return (void *)(ptrdiff_t)*(uint8_t *)arg;
+        case 2:  memcpy(&u16, arg, sizeof u16); return (void *)(ptrdiff_t)u16;
+        case 4:  memcpy(&u32, arg, sizeof u32); return (void *)(ptrdiff_t)u32;
+        default: memcpy(&u64, arg, sizeof u64); return (void *)(ptrdiff_t)u64;
+    }
+}
+
 // internal pack function that operates on va_list
 static int
 pack(const char *fmt, pdata *pd, va_list ap)
@@ -293,6 +318,10 @@ pack(const char *fmt, pdata *pd, va_list ap)
         if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
            return -ENOSPC;
 
+        // The packers take a single element by value; in a VLA it is
+        // in an array.
+        if (have_vnum && num == 1) arg = getelem(p, arg);
+
         c = p->pack(p, pd, num, arg);
         if (c < 0) return c;
 
-- 
2.43.0


From 4f11b956d5dbf6ed5e4020a6282608412131f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 049/178] fix: Pack and Unpack ignored a pad byte without a
 count and a pad's variable count, and reported a wrong error for a pad that
 does not fit

---
 src/pack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index beabe59..5b863b3 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -285,8 +285,10 @@ pack(const char *fmt, pdata *pd, va_list ap)
         void *arg = 0;
 
         switch (c) {
-            case 'x':
-                break;  // do NOT consume an arg!
+            case 'x':   // do NOT consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
+                break;
 
             case 'z':   // fallthrough
             case 'Z':
@@ -398,6 +400,8 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
                 break;
 
             default:
@@ -760,7 +764,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -ENOSPC;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -774,7 +778,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -ENOSPC;
 
     pd->ptr += num;
     return num;
-- 
2.43.0


From 67934e4010b15941ba9bd244a9d890225371335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 050/178] fix: Pack encoded garbage for a single float or
 double

---
 src/pack.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 5b863b3..d71f0ca 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -302,6 +302,23 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 }
                 break;
 
+            case 'f':
+            case 'D':
+                // a single float or double is not passed like a pointer
+                if (!have_vnum && num <= 1) {
+                    double d = va_arg(ap, double);
+
+                    num = 1;
+                    if (c == 'f') {
+                        float f = d;
+                        arg = getelem(p, &f);
+                    } else {
+                        arg = getelem(p, &d);
+                    }
+                    break;
+                }
+                // fallthrough
+
             default:
                 arg = va_arg(ap, void *);
                 if (have_vnum) {
-- 
2.43.0


From eec2fb49534218d8ddda40865dddf9a266cb2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 051/178] fix: Pack asserted on a null string, which is
 documented to be an empty one

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index d71f0ca..5ce4dbf 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -298,7 +298,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = 1 + (arg ? strlen((const char*)arg) : 0);
                 }
                 break;
 
-- 
2.43.0


From 09ed2b628f1652b767c101f009494cca5eda9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 052/178] fix: Unpack read past the buffer for a string at its
 end

---
 src/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 5ce4dbf..e8c4782 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -869,9 +869,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
-- 
2.43.0


From 17c8dcdb9b3a2674b382ebd33775b9d8ead5953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 053/178] fix: Pack accepted a format that ends in *

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index e8c4782..52d7299 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -349,6 +349,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
-- 
2.43.0


From 5160f6a3caffb74857a185831eb991ba952d15ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 054/178] fix: Unpack of a big-endian 32-bit array did not
 check its allocation

---
 src/pack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack.c b/src/pack.c
index 52d7299..424f4df 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -674,6 +674,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
-- 
2.43.0


From 78cfd59faa42e33acde48805ca426838cb25b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:56 +0000
Subject: [PATCH 055/178] fix: pack.h documented 'd' for doubles, the format
 character is 'D'

---
 inc/utils/pack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/pack.h b/inc/utils/pack.h
index f4ca146..24327b9 100644
--- a/inc/utils/pack.h
+++ b/inc/utils/pack.h
@@ -53,7 +53,7 @@ extern "C" {
  *   s, S -- short, unsigned short (16 bit)
  *   i, I -- int, unsigned int (32 bit)
  *   l, L -- long, unsigned long (64 bit)
- *   f, d -- float, double
+ *   f, D -- float, double
  *   z    -- char* string
  *   x    -- pad byte (zeroes in the packed  stream; unconsumed arg
  *           while unpacking)
-- 
2.43.0


From 1bade3c2654b3a03d1129e0edb155b30bf5ca260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 056/178] fix: a delimiter set was indexed out of bounds by
 chars above 127

---
 src/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bits.h b/src/bits.h
index 094c722..e69fb17 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -33,8 +33,8 @@ extern "C" {
 #define xword          uint32_t
 #define WORDBITS      (8 * sizeof(xword))
 #define BITVECTSIZE   (256 / WORDBITS)
-#define _word(c)      (((xword)(c)) / WORDBITS)
-#define _bitp(c)      (1 << (((xword)(c)) % WORDBITS))
+#define _word(c)      (((xword)(uint8_t)(c)) / WORDBITS)
+#define _bitp(c)      (((xword)1) << (((xword)(uint8_t)(c)) % WORDBITS))
 
 struct delim {
     xword    v[BITVECTSIZE];
-- 
2.43.0


From d85484736812c9d1068f8556c1c0667893bc1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 057/178] fix: _Hour was 24 minutes

---
 inc/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..43a90ed 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,7 +116,7 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
 #define _Millisecond(n)  (_Second(n) / 1000)
-- 
2.43.0


From f0e88d18772539b7e4436462283712684a16ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 058/178] fix: _Microsecond and _Millisecond overflowed for a
 few hours or months

---
 inc/utils/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index 43a90ed..6ca84d0 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -119,8 +119,8 @@ typedef uint64_t duration_t;
 #define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
-#define _Millisecond(n)  (_Second(n) / 1000)
-#define _Microsecond(n)  (_Millisecond(n) / 1000)
+#define _Millisecond(n)  (__dur(n) * (__Duration / 1000))
+#define _Microsecond(n)  (__dur(n) * (__Duration / 1000000))
 #define _Nanosecond(n)   __dur(n)
 
 /*
-- 
2.43.0


From 17ab1f9cbabde3d0042824a88853d923c34af296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 059/178] fix: _SEC and _MSEC overflowed int

---
 inc/fast/tmutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/tmutils.h b/inc/fast/tmutils.h
index 535afbc..363485b 100644
--- a/inc/fast/tmutils.h
+++ b/inc/fast/tmutils.h
@@ -42,8 +42,8 @@ now(void)
 }
 
 // Express 'n' seconds in our canonical format
-#define _SEC(n)     ((uint64_t)((n) * 1000000))
-#define _MSEC(n)    ((uint64_t)((n) * 1000))
+#define _SEC(n)     ((uint64_t)((n) * 1000000ULL))
+#define _MSEC(n)    ((uint64_t)((n) * 1000ULL))
 #define _USEC(n)    ((uint64_t)(n))
 
 
-- 
2.43.0


From bce63f40e896b736bd50ee1f90bba56296aab37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 060/178] fix: __constant_ntohl, htons and ntohs had unbalanced
 parentheses

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From ec191e04818329e1c854e6044565b49bba67f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 061/178] fix: _IS_POW2 took 0 for a power of two

---
 inc/utils/typeutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/typeutils.h b/inc/utils/typeutils.h
index c91a2ea..4670bb0 100644
--- a/inc/utils/typeutils.h
+++ b/inc/utils/typeutils.h
@@ -88,7 +88,7 @@ extern "C" {
 
 #define _IS_POW2(n)          ({ \
                                 uint64_t x_ = _U64(n); \
-                                x_ == (x_ & ~(x_-1));})
+                                x_ && x_ == (x_ & ~(x_-1));})
 
 /*
  * Round 'v' to the next closest power of 2.
-- 
2.43.0


From 7bf0643e08390510d84c0958e75679d9c6c41f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 062/178] fix: strsplit_quick reallocated the caller's array
 when it has no slots

---
 src/strsplit.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..5fab03c 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -32,7 +32,8 @@ struct stra
 {
     unsigned char ** arr;
     int size;
-    int cap; /* setting to -1 indicates that this is not growable */
+    int cap;
+    int fixed; /* true if this is not growable */
 };
 typedef struct stra stra;
 
@@ -49,30 +50,30 @@ static int __split_sqz(stra *strv, char * str, const delim *delim);
 static void
 _stra_init(stra * a)
 {
-    a->size = 0;
-    a->cap  = 16;
+    a->size  = 0;
+    a->cap   = 16;
+    a->fixed = 0;
     a->arr  = (unsigned char **) calloc(a->cap, sizeof (unsigned char *));
 }
 
 
 /*
  * Initialize from a fixed size vector 'v' of 'n' slots.
- *
- * We use negative capacity to represent fixed sizes.
  */
 static inline void
 _stra_init_from(stra* a, char**v, int n)
 {
-    a->size = 0;
-    a->cap  = -n;
-    a->arr  = (unsigned char**)v;
+    a->size  = 0;
+    a->cap   = n;
+    a->fixed = 1;
+    a->arr   = (unsigned char**)v;
 }
 
 
 static inline void
 _stra_fini(stra* a)
 {
-    if (a->arr && a->cap > 0)
+    if (a->arr && !a->fixed)
         free(a->arr);
 
     a->size = a->cap = 0;
@@ -104,15 +105,15 @@ _stra_resize(stra * a)
  * Return True if 'a' can hold 'n' more elements
  *
  * Don't resize if one of two conditions hold:
- *  - capacity is pinned (a->cap < 0)
+ *  - capacity is pinned (a->fixed)
  *  - the size is big enough to accommodate the new request
  */
 static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
-        return want <= -a->cap;
+    if (a->fixed)
+        return want <= a->cap;
 
     if (want >= a->cap)
         return _stra_resize(a);
-- 
2.43.0


From 2f14ef6f0bf07c7f33b3c81767d687e09abf0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 063/178] fix: strsplit_csv did not report an unterminated
 quote with nothing after it

---
 src/strsplit_csv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..76c53c5 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -126,8 +126,9 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
         }
     }
 
+    if (q) return -EINVAL;
+
     if (sub != p) {
-        if (q)            return -EINVAL;
         if (k == sv_size) return -ENOSPC;
 
         *p++ = 0;
-- 
2.43.0


From 30b68f44d683a1d4e15305e8fea10ee43377e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 064/178] fix: strsplitargs mangled words that are only partly
 quoted

---
 src/splitargs.c | 70 +++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..7dd68e4 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -53,55 +53,39 @@ int
 strsplitargs(char **args, size_t n, char *s)
 {
     int c;
-    int i = 0;
-    int k = n;
-    int inquote = 0;
-    int eow = 0;
-
-    char *p = s;    // start of substring
-
-#define ADDARG(z)   do {\
-                        if (k == 0) return -ENOSPC;\
-                        args[i++] = (z); \
-                        k--;             \
-                    } while (0)
-
-    for (; (c = *s); s++) {
-        if (inquote) {
-            if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
-                inquote = 0;
+    size_t i = 0;
+
+    while (1) {
+        while (isspace((unsigned char)*s)) s++;
+
+        if (!*s) break;
+        if (i == n) return -ENOSPC;
+
+        // A word extends until unquoted white space and may have any
+        // number of quoted parts; we remove the quotes in place.
+        char *p = s;
+        int inquote = 0;
+
+        args[i++] = p;
+        for (; (c = *s); s++) {
+            if (inquote) {
+                if (c == inquote) inquote = 0;
+                else              *p++ = c;
+            } else if (c == '"' || c == '\'') {
+                inquote = c;
+            } else if (isspace((unsigned char)c)) {
+                s++;
+                break;
+            } else {
+                *p++ = c;
             }
-
-            // regardless, we consume everything inside the quotes.
-            continue;
-        }
-
-        if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
-            continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
-        }
+        if (inquote) return -EINVAL;    // no ending quote
 
-        // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
-        }
+        *p = 0;
     }
 
-    if (inquote) return -EINVAL;    // no ending quote
-
-    if (*p) ADDARG(p);
-
     return i;   // total number of arguments
 }
 
-- 
2.43.0


From 8d1c3df7cbd690be56b6e6071f5ea4b2d8badb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:57 +0000
Subject: [PATCH 065/178] fix: strunquote looks at the wrong character for the
 closing quote

---
 src/strunquote.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..281acb3 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -41,10 +41,10 @@ strunquote(char* s, char** p_ret)
     int q = *s;
     if (q != '"' && q != '\'') return 0;
 
-    int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    size_t n = strlen(s);
+    if (n < 2 || s[n-1] != q) return -1;
 
-    s[--n] = 0;
+    s[n-1] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From 5c9a6c459e2196d42c1a99311607dd3c4416a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:57 +0000
Subject: [PATCH 066/178] fix: dirname keeps repeated separators, overruns one
 byte buffer

---
 src/dirname.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..dc2cc38 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -20,7 +20,7 @@ const char *
 dirname(char *buf, size_t bsize, const char *p)
 {
     size_t n = strlen(p);
-    if (bsize < (n+1)) return 0;
+    if (bsize < (n+1) || bsize < 2) return 0;
 
     memcpy(buf, p, n);
     buf[n] = 0;
@@ -37,6 +37,9 @@ found:
     s[1] = 0;   // remove the last slash.
     for (; s > buf; s--) {
         if (*s == '/') {
+            // skip all the slashes between dir and basename
+            while (s > buf && s[-1] == '/') s--;
+            if (s == buf) goto slash;
             *s = 0;
             return buf;
         }
-- 
2.43.0


From 8a7b0809951c85eccdb89af14a55111bb8f2d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:57 +0000
Subject: [PATCH 067/178] fix: strcasecmp returns result of the wrong sign

---
 src/strcasecmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index 805a3b8..c8fd7ad 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -66,7 +66,7 @@ strcasecmp(const char *str1, const char *str2)
         if ( !c )
             return 0;
     }
-    return map[*r] - map[*l];
+    return map[*l] - map[*r];
 }
 
 
-- 
2.43.0


From 6f81e294c9588860b29b6817f001e32a623bff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:57 +0000
Subject: [PATCH 068/178] fix: strncasecmp indexes the case map with negative
 characters

---
 src/strcasecmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index c8fd7ad..e637bbc 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -92,8 +92,8 @@ strncasecmp(const char *str1, const char *str2, size_t length)
 
     for (; length > 0;length--, str1++, str2++)
     {
-        l = map[c1 = *str1];
-        r = map[c2 = *str2];
+        l = map[c1 = (unsigned char)*str1];
+        r = map[c2 = (unsigned char)*str2];
 
         if ( !(c1 && c2) )
             goto _done;
-- 
2.43.0


From 2934ba3cf4f894a737fdaa49e9ea2f9e0ae43aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:37 +0000
Subject: [PATCH 069/178] fix: strtosize rejects the documented suffix B

---
 src/strtosize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..6e3800c 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':
+                --endptr;
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
-- 
2.43.0


From 1808c3e9933d3db98e443978804d418a9816c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:37 +0000
Subject: [PATCH 070/178] fix: strtosize misses most overflows

---
 src/strtosize.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index 6e3800c..f1d0b65 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -184,11 +184,9 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
     }
 
-    uint64_t res = v * mult;
+    if (v > _u(~0) / mult) return -ERANGE;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
-
-    if (ret) *ret = res;
+    if (ret) *ret = v * mult;
     return 0;
 }
 
-- 
2.43.0


From 546f805c104c6b45d14ad388f17370c7759a0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:37 +0000
Subject: [PATCH 071/178] fix: strtosize accepts junk right after the unit

---
 src/strtosize.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index f1d0b65..7fcb140 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -173,15 +173,18 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
 
         switch (*endptr) {
-            case 0:
             case 'B':
+                endptr++;
                 break;
             case 'b':
                 mult /= 8;
+                endptr++;
                 break;
             default:
-                if (!isspace(*endptr)) return -EINVAL;
+                break;
         }
+
+        if (*endptr && !isspace((unsigned char)*endptr)) return -EINVAL;
     }
 
     if (v > _u(~0) / mult) return -ERANGE;
-- 
2.43.0


From 3d258a75adb5212c0dddce258960ec94079a2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:37 +0000
Subject: [PATCH 072/178] fix: strtoi<T> accepts numbers that don't fit the
 type

---
 inc/utils/strutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/strutils.h b/inc/utils/strutils.h
index d96dd49..0c6f2bd 100644
--- a/inc/utils/strutils.h
+++ b/inc/utils/strutils.h
@@ -223,7 +223,7 @@ template<typename T> std::pair<T, bool> strtoi(const std::string& s, int base=0)
     uint64_t v = 0;
     int      r = strtosize(s.c_str(), base, &v);
 
-    return std::pair<T, bool>{T(v), r == 0 ? true : false};
+    return std::pair<T, bool>{T(v), r == 0 && uint64_t(T(v)) == v};
 }
 
 } // namespace putils
-- 
2.43.0


From 7ac3e0cda39ff5a9c24d36256227dfe59d6d55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:39 +0000
Subject: [PATCH 073/178] fix: humanize_size prints a meaningless fraction

---
 src/humanize.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..6c8741b 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,11 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // two digits, one at a time: m * 100 could overflow
+                uint64_t f = (m * 10) / p->sz;
+                m = (m * 10) % p->sz;
+                f = (f * 10) + (m * 10) / p->sz;
+                snprintf(buf, bufsize, "%" PRIu64 ".%02" PRIu64 " %s", n, f, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From 523c48354aa3f36add205bdb4d9f1e8672c7cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 074/178] fix: gstr_escape doubles the escape char of octal
 sequences

---
 src/escape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..7c4e50d 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -80,7 +80,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", c & 0xff);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From 98e2ad6ad2638c6826517b9ece7f2db2045c0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 075/178] fix: gstr_unescape decodes the hex digits a-f as 0-5

---
 src/unescape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..e70b692 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -234,12 +234,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = 10 + c - 'a';
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = 10 + c - 'A';
                 break;
 
             case 0:
-- 
2.43.0


From edc3190a6e094ddb60ca52a5d2fe77e693be13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 076/178] fix: gstr_unescape turns a hex escape without digits
 into NUL

---
 src/unescape.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index e70b692..ca80eda 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -133,26 +133,28 @@ parse_esc(char **p_out, const char *src, int esc_char)
         case 'x':
         {
             int val;
+            const char *next;
 
             switch (c) {
                 case '0':
-                    ptr = extract_octal(&val, ptr);
+                    next = extract_octal(&val, ptr);
                     break;
 
                 case 'x':
-                    ptr = extract_hex(&val, ptr);
+                    next = extract_hex(&val, ptr);
                     break;
 
                 default:
                     // Decimal: we must count everything after the
                     // escape char -- thus, we go back one offset
                     // position in order to extract the digits.
-                    ptr = extract_decimal(&val, ptr-1);
+                    next = extract_decimal(&val, ptr-1);
                     break;
             }
 
-            if (ptr) {
-                v = val;
+            if (next) {
+                ptr = next;
+                v   = val;
                 goto out;
             }
 
@@ -162,7 +164,7 @@ parse_esc(char **p_out, const char *src, int esc_char)
             *out++ = esc_char;
             *out++ = c;
             *p_out = out;
-            return src + 2;
+            return ptr;
         }
     }
 
@@ -217,6 +219,7 @@ extract_decimal(int *p_val, const char *ptr)
 static const char *
 extract_hex(int *p_val, const char *ptr)
 {
+    const char *start = ptr;
     int n   = 2;
     int val = 0;
 
@@ -252,6 +255,8 @@ extract_hex(int *p_val, const char *ptr)
     }
 
 out:
+    if (ptr == start) return 0;
+
     *p_val = val & 0xff;
     return ptr;
 }
-- 
2.43.0


From c9fec50a98be0e42b83a43a9268d394c1ede9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 077/178] fix: gstr_append of a string to itself uses freed
 memory

---
 src/gstring.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..3490581 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -17,6 +17,7 @@
  */
 #include <string.h>
 #include <stdlib.h>
+#include <stdint.h>
 #include <ctype.h>
 #include <errno.h>
 #include <assert.h>
@@ -120,9 +121,16 @@ gstr_fini(gstr *g)
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
+    // 'str' may be a part of 'g'; growing it can move the string
+    uintptr_t base = (uintptr_t)g->str,
+              off  = (uintptr_t)str - base;
+
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    if (off <= g->len) str = g->str + off;
+
+    memmove(g->str + g->len, str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
-- 
2.43.0


From 654730c4869676a1eb6718a324ce4621597c403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 078/178] fix: gstr_copy leaves the length of the copy at zero

---
 src/gstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gstring.c b/src/gstring.c
index 3490581..e6e0a72 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -266,6 +266,7 @@ gstr_copy(gstr * dest, const gstr* src)
 
     dest = grow_if(dest, len+1);
     memcpy(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
-- 
2.43.0


From 3916c9a38a75680adca39c80eaca714d844f5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 079/178] fix: gstr_unquote miscounts the length, accepts a
 lone quote

---
 src/gstring.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index e6e0a72..77510ca 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -358,10 +358,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
-- 
2.43.0


From 80896ea9eb37df26d1ebf55b3633732b415797b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 080/178] fix: gstr_readline writes the terminator past the
 buffer

---
 src/gstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 77510ca..d94f536 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -396,7 +396,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len + 1 >= g->cap) {
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From 87351a5d33dfdb680bc22040d14f3a2e5d54189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 081/178] fix: gstr_readline reports a read error as end of
 file

---
 src/gstring.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index d94f536..58ba6c7 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -413,8 +413,10 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         str[len++] = c;
     }
     str[len] = 0;
+    g->len   = len;
 
-    return g->len = len;
+    if (c == EOF && ferror(fp)) return -1;
+    return len;
 }
 
 
-- 
2.43.0


From 425e71a236712689cc324d662b7ebf1dd815261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:03 +0000
Subject: [PATCH 082/178] fix: gstr_finalize and gstr_cap are declared but not
 defined

---
 src/gstring.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/gstring.c b/src/gstring.c
index 58ba6c7..01332b5 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -118,6 +118,21 @@ gstr_fini(gstr *g)
 }
 
 
+/* Unbind the string from 'g' and hand it to the caller. */
+char *
+gstr_finalize(gstr *g)
+{
+    assert(g);
+
+    char *s = g->str;
+
+    g->len = 0;
+    g->cap = 0;
+    g->str = 0;
+    return s;
+}
+
+
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
@@ -296,6 +311,14 @@ size_t
 }
 
 
+/* Return the capacity of the gstr. */
+size_t
+(gstr_cap)(gstr * g)
+{
+    return g ? g->cap : 0;
+}
+
+
 /* Remove leading and trailing white spaces from a string. */
 gstr*
 gstr_trim(gstr * g)
-- 
2.43.0


From a09f4f54deef17d13d5b93ab09c7054a0a0d6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 083/178] fix: base64_encode_buf overruns small output buffers

---
 src/b64_encode.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..3c98ad7 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include <assert.h>
 #include "utils/base64.h"
 
@@ -125,12 +126,17 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    // 4 chars for every 3 bytes, a newline per full line, the last
+    // newline and the trailing null.
+    size_t want = 4 * (((size_t)srclen + 2) / 3);
+
+    want += ((size_t)srclen / 3) / (CHARS_PER_LINE / 4) + 2;
+    if (destlen < 0 || (size_t)destlen < want)
         return -ENOMEM;
 
     base64_encode_init(&state);
     n = base64_encode_block(&state, (char*)src, srclen, dest);
-    assert(n < (destlen+5));
+    assert(n < destlen);
     return n + base64_encode_finish(&state, dest+n);
 }
 
-- 
2.43.0


From 4197b236e83d4c282a6fab8740267ac84560c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 084/178] fix: base64 decoder reads past the end of its table

---
 src/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..1b63a8e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
-- 
2.43.0


From 6a502405c70673f400640b2fd8da59155cec4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 085/178] fix: base64_decode_buf overruns small output buffers

---
 src/b64_decode.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 1b63a8e..45bc47a 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include "utils/base64.h"
 
 static int
@@ -52,7 +53,7 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = 0;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
@@ -106,7 +107,17 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    // every char of the alphabet is worth 6 bits of output; the
+    // rest are skipped.
+    size_t n = 0;
+    int i;
+
+    for (i = 0; i < srclen; i++) {
+        if (base64_decode_value(src[i]) >= 0) n++;
+    }
+
+    if (n == 0) return 0;
+    if (destlen < 0 || (size_t)destlen < ((3*n) + 3) / 4) return -ENOMEM;
 
     base64_decode_init(&state);
 
-- 
2.43.0


From 2fd26b06f7498c6ac49f71bef61e6a7cb3b9d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 086/178] fix: fhexdump ignores write errors

---
 src/hexdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..6648f35 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -64,7 +64,7 @@ __fp_writer(void *ctx, const char *buf, size_t n)
     FILE *fp = ctx;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From ced336a9ac02138a71f60d8dcebd6daa21c7f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:53 +0000
Subject: [PATCH 087/178] fix: parse_ipv4 accepts empty octets and a trailing
 dot

---
 src/parse-ip.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..f655d01 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -99,6 +99,8 @@ parse_ipv4(uint32_t* p_z, const char* sx)
             continue;
         }
 
+        if (m == 0) return 0;
+
         x[m] = 0;
         z    = 0;
         r    = dtoi(&z, x);
@@ -110,18 +112,17 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    // the last octet must be there and it must be the fourth one
+    if (m == 0 || n != 3) return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
 
-    if (n < 4) return 0;
+    p[n++] = z & 0xff;
 
     *p_z = dec_BE_u32(p);
     return 1;
-- 
2.43.0


From 604171c6b16750850369ab7b315bc3e2ba5934c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:53 +0000
Subject: [PATCH 088/178] fix: parse_ipv4_and_mask shifts by 32 bits for a /0
 mask

---
 src/parse-ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index f655d01..9e7d580 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -170,7 +170,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z == 0 ? 0 : 0xffffffff << (32 - (uint32_t)z);
     }
 
     return 1;
-- 
2.43.0


From ac292d10b7876ffbda0c96eb23e52b0736842e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:53 +0000
Subject: [PATCH 089/178] fix: parse_ipv4_and_mask accepts huge prefix lengths
 that wrap around

---
 src/parse-ip.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 9e7d580..bf4c743 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -57,6 +57,7 @@ dtoi(size_t* pn, const char* s)
         if (!isdigit(c)) return 0;
 
         n = n * 10 + (c - '0');
+        if (n > 0xffff) return 0;   // avoid overflow
     }
 
     *pn = n;
-- 
2.43.0


From 2088389c745f9b953eaaef3bec86e4a7305c8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:53 +0000
Subject: [PATCH 090/178] fix: parse_ipv4_and_mask accepts an empty or overlong
 mask

---
 src/parse-ip.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index bf4c743..ed0f4a6 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -154,7 +154,8 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (sl[1] == 0) return 0;
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0) return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
-- 
2.43.0


From 1fae541d22dab19bcca82cd62922d6735c832709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 091/178] fix: murmur3 mixed the last full block into the tail
 of the input

---
 src/hashfunc/murmur3_hash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..db74a06 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,7 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
-
+  k1 = 0;
   switch(len & 3)
   {
       case 3: k1 ^= tail[2] << 16; // fallthrough
@@ -231,7 +231,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
-
+    k1 = k2 = k3 = k4 = 0;
     switch(len & 15)
     {
         case 15: k4 ^= tail[14] << 16; // fallthrough
@@ -323,6 +323,7 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From 1d88b0b64d22d44438ecc69d93ad3d292882849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 092/178] fix: murmur3_hash_128 returned the same 64 bits twice

---
 src/hashfunc/murmur3_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index db74a06..c344559 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -277,7 +277,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
-- 
2.43.0


From f0d68b3965ee318a9efe397a062ee640e7c32033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 093/178] fix: yorrike_hash32 left out some of the input bytes

---
 src/hashfunc/yorrike.c | 58 +++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/hashfunc/yorrike.c b/src/hashfunc/yorrike.c
index ef0bb46..b802fa0 100644
--- a/src/hashfunc/yorrike.c
+++ b/src/hashfunc/yorrike.c
@@ -11,26 +11,20 @@
 #define _YP32  709607
 
 
-#define WORDSZ      4
-#define D_WORDSZ    (WORDSZ << 1)       // 8
-#define DD_WORDSZ   (WORDSZ << 2)       // 16
-#define DDD_WORDSZ  (WORDSZ << 3)       // 32
+#define WORDSZ      2
+#define D_WORDSZ    (WORDSZ << 1)       // 4
+#define DD_WORDSZ   (WORDSZ << 2)       // 8
+#define DDD_WORDSZ  (WORDSZ << 3)       // 16
 
 /*
- * Needed for unaligned u64 decode.
+ * Needed for unaligned decode.
  */
-#define _u64(x) ((uint64_t)x)
-#define _u32(x) ((uint64_t)x)
-static inline uint64_t
-dec_LE_u64(const uint8_t * p) {
-    return         p[0]
-           | (_u64(p[1]) << 8)
-           | (_u64(p[2]) << 16)
-           | (_u64(p[3]) << 24)
-           | (_u64(p[4]) << 32)
-           | (_u64(p[5]) << 40)
-           | (_u64(p[6]) << 48)
-           | (_u64(p[7]) << 56);
+#define _u32(x) ((uint32_t)x)
+#define _rotl5(x)   (((x) << 5) | ((x) >> 27))
+
+static inline uint32_t
+dec_LE_u16(const uint8_t * p) {
+    return p[0] | (_u32(p[1]) << 8);
 }
 
 static inline uint32_t
@@ -47,16 +41,16 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
     uint32_t h32  = seed ? seed : _OFF32,
              h32b = h32;
     const uint8_t* buf = (const uint8_t*)x;
-    uint64_t k1, k2;
+    uint32_t k1, k2;
 
     while (n >= DDD_WORDSZ) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
-        h32  = _u32((_u64(h32) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
+        h32  = (h32 ^ (_rotl5(k1) ^ k2)) * _YP32;
 
-        k1   = dec_LE_u64(buf+8);
-        k2   = dec_LE_u64(buf+12);
-        h32b = _u32((_u64(h32b) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
+        k1   = dec_LE_u32(buf+8);
+        k2   = dec_LE_u32(buf+12);
+        h32b = (h32b ^ (_rotl5(k1) ^ k2)) * _YP32;
 
         buf += DDD_WORDSZ;
         n   -= DDD_WORDSZ;
@@ -64,10 +58,10 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
 
     if ((n & DD_WORDSZ) > 0) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
-        h32  = _u32((_u64(h32)  ^ k1) * _YP32);
-        h32b = _u32((_u64(h32b) ^ k2) * _YP32);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
+        h32  = (h32  ^ k1) * _YP32;
+        h32b = (h32b ^ k2) * _YP32;
 
         buf += DD_WORDSZ;
     }
@@ -75,8 +69,8 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & D_WORDSZ) > 0) {
         uint32_t w1, w2;
-        w1   = dec_LE_u32(buf);
-        w2   = dec_LE_u32(buf+2);
+        w1   = dec_LE_u16(buf);
+        w2   = dec_LE_u16(buf+2);
         h32  = (h32  ^ w1) * _YP32;
         h32b = (h32b ^ w2) * _YP32;
 
@@ -86,7 +80,7 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & WORDSZ) > 0) {
         uint32_t w1;
-        w1   = dec_LE_u32(buf);
+        w1   = dec_LE_u16(buf);
         h32  = (h32  ^ w1) * _YP32;
 
         buf += WORDSZ;
@@ -98,7 +92,7 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
         h32  = (h32  ^ w1) * _YP32;
     }
 
-    h32 = (h32 ^ ((h32b << 5) | (h32b >> 27))) * _YP32;
+    h32 = (h32 ^ _rotl5(h32b)) * _YP32;
     return h32 ^ (h32 >> 16);
 }
 
-- 
2.43.0


From 0b934fc526c4ec32da146aa9e2c405758562a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 094/178] fix: siphash24 depended on how the input was split
 into updates

---
 inc/utils/siphash.h      |  2 ++
 src/hashfunc/siphash24.c | 52 ++++++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/inc/utils/siphash.h b/inc/utils/siphash.h
index 7905c10..3d4030f 100644
--- a/inc/utils/siphash.h
+++ b/inc/utils/siphash.h
@@ -29,6 +29,8 @@ extern "C" {
 struct siphash24_state
 {
     uint64_t v0, v1, v2, v3;
+    uint64_t b;     // bytes not yet hashed (less than 8), first one lowest
+    uint64_t len;   // total number of bytes seen
 };
 typedef struct siphash24_state siphash24_state;
 
diff --git a/src/hashfunc/siphash24.c b/src/hashfunc/siphash24.c
index 7ebdeeb..6d721ed 100644
--- a/src/hashfunc/siphash24.c
+++ b/src/hashfunc/siphash24.c
@@ -48,6 +48,7 @@
 */
 
 #include <stdint.h>
+#include <string.h>
 #include "utils/siphash.h"
 
 #if defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && \
@@ -166,46 +167,52 @@ siphash24_init(siphash24_state* st, const uint64_t* key)
     st->v1 = k1 ^ 0x646f72616e646f6dULL;
     st->v2 = k0 ^ 0x6c7967656e657261ULL;
     st->v3 = k1 ^ 0x7465646279746573ULL;
+    st->b   = 0;
+    st->len = 0;
 }
 
 void
 siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
 {
-    uint64_t b = ((uint64_t)src_sz) << 56;
-    const uint64_t *in = (uint64_t*)src;
+    const uint8_t *m = (const uint8_t*)src;
 
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
+    uint64_t b  = st->b;
+    int      n  = st->len & 7;     // number of bytes in 'b'
 
+    st->len += src_sz;
+
+    // finish the word left over from the previous update
+    while (n > 0 && src_sz > 0)
+    {
+        b |= ((uint64_t)*m) << (8 * n);
+        m += 1; src_sz -= 1;
+        if (++n == 8) {
+            v3 ^= b;
+            DOUBLE_ROUND(v0,v1,v2,v3);
+            v0 ^= b;
+            b = n = 0;
+        }
+    }
 
     while (src_sz >= 8)
     {
-        uint64_t mi = _le64toh(*in);
-        in += 1; src_sz -= 8;
+        uint64_t mi;
+        memcpy(&mi, m, sizeof mi);
+        mi = _le64toh(mi);
+        m += 8; src_sz -= 8;
         v3 ^= mi;
         DOUBLE_ROUND(v0,v1,v2,v3);
         v0 ^= mi;
     }
 
-    uint64_t t = 0; uint8_t *pt = (uint8_t *)&t; uint8_t *m = (uint8_t *)in;
-    switch (src_sz)
-    {
-        case 7: pt[6] = m[6]; // fallthrough
-        case 6: pt[5] = m[5]; // fallthrough
-        case 5: pt[4] = m[4]; // fallthrough
-        case 4: *((uint32_t*)&pt[0]) = *((uint32_t*)&m[0]); break;
-        case 3: pt[2] = m[2]; // fallthrough
-        case 2: pt[1] = m[1]; // fallthrough
-        case 1: pt[0] = m[0]; // fallthrough
-    }
-    b |= _le64toh(t);
-
-    v3 ^= b;
-    DOUBLE_ROUND(v0,v1,v2,v3);
-    v0 ^= b;
+    for (; src_sz > 0; src_sz--)
+        b |= ((uint64_t)*m++) << (8 * n++);
 
+    st->b  = b;
     st->v0 = v0;
     st->v1 = v1;
     st->v2 = v2;
@@ -220,6 +227,11 @@ siphash24_finish(siphash24_state* st)
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
+    uint64_t b  = st->b | (st->len << 56);
+
+    v3 ^= b;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= b;
 
     v2 ^= 0xff;
     DOUBLE_ROUND(v0,v1,v2,v3);
-- 
2.43.0


From 4e6e5dc296d5d71712d78372bbd1e56ff3a6b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 095/178] fix: splitmix64 applied the multiplications to the
 shifted values

The missing parentheses made the mixing function another one than the
published splitmix64.
---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From 55d0f62f9c22196ec209861bc7210984a6abe7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 096/178] fix: xorshift64* used the wrong last shift

---
 src/prng/xorshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..96fc13e 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -37,7 +37,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From 8f50c7feb19a5c5435c509c710f67fc9f98d112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 097/178] fix: arc4random never reseeded when a request spanned
 the reseed count

rs_count is unsigned; subtracting a larger length wrapped it around.
---
 src/arc4random.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..e09c310 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,11 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    // a request may be larger than the whole reseed interval
+    if (st->rs_count <= len)
+        st->rs_count = 0;
+    else
+        st->rs_count -= len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From 8ab31042a67c41921d72249f0a89cbf3afeeb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 098/178] fix: uuid_fromstring accepted misplaced dashes and
 overran the identifier; entropy failures were ignored

---
 src/uuid.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..99ec212 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -29,7 +29,7 @@ uuid_generate(uint8_t *buf, size_t bsiz)
     if (bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
@@ -46,10 +46,14 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
     
     uint8_t byte  = 0;
     int     shift = 4,
-            c;
+            i, c;
 
     bsiz = 16;  // this is all we need. Don't decode more.
-    while ((c = *str++)) {
+    for (i = 0; (c = *str++); i++) {
+        // the dashes are part of the form: 8-4-4-4-12
+        int dash = (i == 8 || i == 13 || i == 18 || i == 23);
+        if (dash != (c == '-')) return -EINVAL;
+
         switch (c) {
             default:
                 return -EINVAL;
-- 
2.43.0


From 4f88fa1b065c486545d9c5617ddfdf3954e51aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 099/178] fix: ulid time bits, last characters and out-of-range
 text; entropy failures were ignored

---
 src/ulid.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..2288776 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,14 +46,14 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
-
-    getentropy(buf, 10);
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
+
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 chars have room for 130 bits
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
@@ -146,7 +149,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From 8ddbf8ba0cc5419eefec6a58f2d3d8f766ad825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 100/178] fix: fts stream closed unread leaked, and one without
 roots crashed

---
 src/fts.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..d52b779 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -192,6 +192,8 @@ fts_open(char * const *argv, int options,
 	if ((sp->fts_cur = fts_alloc(sp, "", 0)) == NULL)
 		goto mem3;
 	sp->fts_cur->fts_link = root;
+	sp->fts_cur->fts_parent = parent;
+	sp->fts_cur->fts_level = FTS_ROOTLEVEL;
 	sp->fts_cur->fts_info = FTS_INIT;
 
 	/*
@@ -210,9 +212,6 @@ fts_open(char * const *argv, int options,
 		}
 	}
 
-	if (nitems == 0)
-		fts_free(parent);
-
 	return (sp);
 
 mem3:	fts_lfree(root);
-- 
2.43.0


From 1d5b18d9d53013c619636b004e08a16da32476ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 101/178] fix: fts leaked and double-closed descriptors of
 followed links, and stopped at followed empty directories

---
 src/fts.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index d52b779..e0c7dde 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -69,6 +69,7 @@ __RCSID("$NetBSD: fts.c,v 1.40 2009/11/02 17:17:34 stacktic Exp $");
 static FTSENT	*fts_alloc(FTS *, const char *, size_t);
 static FTSENT	*fts_build(FTS *, int);
 static void	 fts_free(FTSENT *);
+static void	 fts_symclose(FTSENT *);
 static void	 fts_lfree(FTSENT *);
 static void	 fts_load(FTS *, FTSENT *);
 static size_t	 fts_maxarglen(char * const *);
@@ -262,8 +263,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -344,6 +343,7 @@ fts_read(FTS *sp)
 
 	/* Any type of file may be re-visited; re-stat and re-turn. */
 	if (instr == FTS_AGAIN) {
+		fts_symclose(p);
 		p->fts_info = fts_stat(sp, p, 0);
 		return (p);
 	}
@@ -376,8 +376,7 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
-				(void)close(p->fts_symfd);
+			fts_symclose(p);
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -501,12 +500,12 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
 			saved_errno = errno;
-			(void)close(p->fts_symfd);
+			fts_symclose(p);
 			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
-		(void)close(p->fts_symfd);
+		fts_symclose(p);
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
@@ -884,6 +883,8 @@ mem1:				saved_errno = errno;
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    (cur->fts_flags & FTS_SYMFOLLOW) ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
@@ -1076,9 +1077,20 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 	return (p);
 }
 
+/* Close the descriptor kept to get back from a symbolic link. */
+static void
+fts_symclose(FTSENT *p)
+{
+	if (p->fts_flags & FTS_SYMFOLLOW) {
+		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
+	}
+}
+
 static void
 fts_free(FTSENT *p)
 {
+	fts_symclose(p);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From a6403c66b6ae7f4919f84ce3dad2505d31c86eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 102/178] fix: fts revisiting the root . or .. reported it as a
 dot entry

---
 src/fts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index e0c7dde..20ca221 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -963,7 +963,8 @@ err:		memset(sbp, 0, sizeof(*sbp));
 		ino = p->fts_ino = sbp->st_ino;
 		p->fts_nlink = sbp->st_nlink;
 
-		if (ISDOT(p->fts_name))
+		/* Command-line "." and ".." are real directories. */
+		if (p->fts_level != FTS_ROOTLEVEL && ISDOT(p->fts_name))
 			return (FTS_DOT);
 
 		/*
-- 
2.43.0


From e8d93baede6cac46d28533cf924d733e8e6669da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 103/178] fix: fts path wrong after fts_children or an empty
 root with trailing slash

---
 src/fts.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 20ca221..1d15964 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -867,11 +867,8 @@ mem1:				saved_errno = errno;
 	 * If not changing directories, reset the path back to original
 	 * state.
 	 */
-	if (ISSET(FTS_NOCHDIR)) {
-		if (len == sp->fts_pathlen || nitems == 0)
-			--cp;
-		*cp = '\0';
-	}
+	if (ISSET(FTS_NOCHDIR))
+		sp->fts_path[cur->fts_pathlen] = '\0';
 
 	/*
 	 * If descended after called from fts_children or after called from
-- 
2.43.0


From b4e449d72de9bdac82ecd0efec7e9e1384363e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 104/178] fix: fts device of a followed root link was not set

---
 src/fts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 1d15964..9b77988 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -345,6 +345,8 @@ fts_read(FTS *sp)
 	if (instr == FTS_AGAIN) {
 		fts_symclose(p);
 		p->fts_info = fts_stat(sp, p, 0);
+		if (p->fts_level == FTS_ROOTLEVEL)
+			sp->fts_dev = p->fts_dev;
 		return (p);
 	}
 
@@ -357,6 +359,8 @@ fts_read(FTS *sp)
 	if (instr == FTS_FOLLOW &&
 	    (p->fts_info == FTS_SL || p->fts_info == FTS_SLNONE)) {
 		p->fts_info = fts_stat(sp, p, 1);
+		if (p->fts_level == FTS_ROOTLEVEL)
+			sp->fts_dev = p->fts_dev;
 		if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 			if ((p->fts_symfd = open(".", O_RDONLY, 0)) == -1) {
 				p->fts_errno = errno;
-- 
2.43.0


From ce44f562a54257f424f4ef9878922a3f6c507ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 105/178] fix: fts followed the link under the previous entry's
 path when asked through fts_children

---
 src/fts.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 9b77988..6ab772d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -451,6 +451,10 @@ next:	tmp = p;
 		 */
 		if (p->fts_instr == FTS_SKIP)
 			goto next;
+
+name:		t = sp->fts_path + NAPPEND(p->fts_parent);
+		*t++ = '/';
+		memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
 		if (p->fts_instr == FTS_FOLLOW) {
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
@@ -467,10 +471,6 @@ next:	tmp = p;
 			}
 			p->fts_instr = FTS_NOINSTR;
 		}
-
-name:		t = sp->fts_path + NAPPEND(p->fts_parent);
-		*t++ = '/';
-		memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
 		return (sp->fts_cur = p);
 	}
 
-- 
2.43.0


From 17e946c7b84d0202bb71bb48931536a5e3c158f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 106/178] fix: fts_children lost instructions after an earlier
 names-only call

---
 src/fts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index 6ab772d..4af35e5 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -587,8 +587,10 @@ fts_children(FTS *sp, int instr)
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
 		instr = BNAMES;
-	} else
+	} else {
+		CLR(FTS_NAMEONLY);
 		instr = BCHILD;
+	}
 
 	/*
 	 * If using chdir on a relative path and called BEFORE fts_read does
-- 
2.43.0


From 6cf87bb18352463c95cf1dce5ff6434082119f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 107/178] fix: fts used the old path buffer after growing it

---
 src/fts.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 4af35e5..2f76df7 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -581,8 +581,10 @@ fts_children(FTS *sp, int instr)
 		return (NULL);
 
 	/* Free up any previous child list. */
-	if (sp->fts_child)
+	if (sp->fts_child) {
 		fts_lfree(sp->fts_child);
+		sp->fts_child = NULL;
+	}
 
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
@@ -638,7 +640,7 @@ fts_build(FTS *sp, int type)
 	DIR *dirp;
 	void *oldaddr;
 	size_t dnamlen;
-	int cderrno, descend, level, nlinks, saved_errno, nostat, doadjust;
+	int cderrno, descend, level, nlinks, saved_errno, nostat;
 	size_t len, maxlen;
 #ifdef FTS_WHITEOUT
 	int oflag;
@@ -750,7 +752,6 @@ fts_build(FTS *sp, int type)
 	level = cur->fts_level + 1;
 
 	/* Read the directory, attaching each entry to the `link' pointer. */
-	doadjust = 0;
 	for (head = tail = NULL, nitems = 0; (dp = readdir(dirp)) != NULL;) {
 
 		if (!ISSET(FTS_SEEDOT) && ISDOT(dp->d_name))
@@ -781,9 +782,14 @@ mem1:				saved_errno = errno;
 				SET(FTS_STOP);
 				return (NULL);
 			}
-			/* Did realloc() change the pointer? */
+			/*
+			 * If realloc() changed the pointer, adjust the
+			 * addresses in this entry, the ones read so far and
+			 * the rest of the tree.
+			 */
 			if (oldaddr != sp->fts_path) {
-				doadjust = 1;
+				p->fts_path = sp->fts_path;
+				fts_padjust(sp, head ? head : cur);
 				if (ISSET(FTS_NOCHDIR))
 					cp = sp->fts_path + len;
 			}
@@ -862,13 +868,6 @@ mem1:				saved_errno = errno;
 	}
 	(void)closedir(dirp);
 
-	/*
-	 * If had to realloc the path, adjust the addresses for the rest
-	 * of the tree.
-	 */
-	if (doadjust)
-		fts_padjust(sp, head);
-
 	/*
 	 * If not changing directories, reset the path back to original
 	 * state.
-- 
2.43.0


From 10db4b51b5d40e4972bdbf55c896b1dbd73035d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 108/178] fix: rotatefile.h did not close its extern "C" block

---
 inc/utils/rotatefile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/rotatefile.h b/inc/utils/rotatefile.h
index 9f9ec23..b5c638a 100644
--- a/inc/utils/rotatefile.h
+++ b/inc/utils/rotatefile.h
@@ -53,7 +53,7 @@ extern int rotate_filename_by_size(const char* filename, int nsaved,
                     uint64_t size_mb, unsigned int flags);
 
 #ifdef __cplusplus
-extern "C" {
+}
 #endif
 
 #endif /* ! __ROTATEFILE_H_1186176198__ */
-- 
2.43.0


From 75fd7b89a6e999b025b26a674ade027f88d1d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 109/178] fix: mkdirhier failed on a trailing slash and when
 others made a directory at the same time

---
 src/mkdirhier.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..e386fe1 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -34,6 +34,26 @@ sep(const char* p)
 }
 
 
+/*
+ * Make one directory; it is fine if it exists already - e.g.,
+ * because someone else made it at the same time.
+ */
+static int
+makedir(const char* path, mode_t mode)
+{
+    struct stat st;
+
+    if (mkdir(path, mode) < 0) {
+        int err = errno;
+
+        if (err != EEXIST || stat(path, &st) < 0 || !S_ISDIR(st.st_mode))
+            return -err;
+    }
+
+    return 0;
+}
+
+
 int
 mkdirhier(const char* path, mode_t mode)
 {
@@ -68,19 +88,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = makedir(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return makedir(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From b839d2175da26c4a3785be49a67f1fba4e87fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 110/178] fix: rotate_filename_by_size let a file exceed the
 limit by up to a megabyte

---
 src/rotatefile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..b722aca 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -85,7 +85,10 @@ rotate_filename_by_size(const char *filename, int nsaved,
     }
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
-    uint64_t actual_size = st.st_size / 1048576;
+    // round up: one byte more than 'size_mb' MBytes exceeds it
+    uint64_t actual_size = (uint64_t)st.st_size / 1048576;
+    if (st.st_size % 1048576) actual_size++;
+
     if (actual_size > size_mb)
         return rotate_filename(filename, nsaved, flags);
 
-- 
2.43.0


From 5dac30c207445bffbbad52ddbf6daccee7db091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 111/178] fix: rotate_filename lost the file when the saves'
 names did not fit in PATH_MAX

---
 src/rotatefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index b722aca..4b681c0 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -14,6 +14,7 @@
  * suitability for any purpose.
  */
 #include <stdio.h>
+#include <string.h>
 #include <errno.h>
 #include <limits.h>
 #include <unistd.h>
@@ -38,6 +39,9 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 
     (void)flags;
 
+    // the name with the largest suffix (".2147483647") must fit
+    if (strlen(filename) + 12 > PATH_MAX) return -ENAMETOOLONG;
+
     // Delete older files upto a max of 100 extra files
     delete_old(filename, nsaved, nsaved+100);
 
-- 
2.43.0


From c9e46be534c7b0ea7561deaca772b9aca9ca6468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 112/178] fix: geterror left out the system's message with the
 GNU strerror_r

---
 src/posix/syserror.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/posix/syserror.cpp b/src/posix/syserror.cpp
index daf6e4f..085da2d 100644
--- a/src/posix/syserror.cpp
+++ b/src/posix/syserror.cpp
@@ -34,19 +34,23 @@ geterrno()
 
 
 
+// strerror_r() is either the XSI one, which fills the buffer, or the
+// GNU one, which returns the message.
+static inline const char * errmsg(int, const char * buf)        { return buf; }
+static inline const char * errmsg(const char * s, const char *) { return s; }
+
+
 syserror
 geterror(int err, const string& prefix)
 {
     //int err       = errno;
     char buf[256] = { 0 };
 
-    strerror_r(err, buf, sizeof buf);
-    
     syserror p(err, prefix);
 
     if (prefix.length() > 0)
         p.errstr += ": ";
-    p.errstr.append(buf);
+    p.errstr.append(errmsg(strerror_r(err, buf, sizeof buf), buf));
     return p;
 }
 
-- 
2.43.0


From b2fa1fa40372c9f4a09b05d68971a77771585620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 113/178] fix: sys_exception aborted or read beyond its buffer
 for long messages

---
 src/sysexception.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sysexception.cpp b/src/sysexception.cpp
index 1b34ebf..9517ed2 100644
--- a/src/sysexception.cpp
+++ b/src/sysexception.cpp
@@ -54,7 +54,9 @@ sys_exception::sys_exception(const syserror& e, const char * fmt, ...)
     size_t n = vsnprintf(buf, max, fmt, ap);
     va_end(ap);
 
-    assert(n <= max);
+    // vsnprintf() returns what it would have written
+    if (n >= max)
+        n = max - 1;
 
     memcpy(m_buf, buf, n);
     m_buf[n++] = ':';
-- 
2.43.0


From 891703331efbe834e7bac3f95f00a76d7cc81c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 114/178] fix: strmatch: kmp_search left out overlapping
 occurrences

---
 inc/utils/strmatch.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index d8cc873..4aa7cc4 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -159,21 +159,25 @@ kmp_search<T>::matchall(const  T * text, int textlen)
 {
     std::vector<int> r;
 
-    int off = 0;
-    while(textlen > 0)
-    {
-        std::pair<bool, int> m = match(text, textlen);
-        if ( !m.first )
-            break;
+    if ( textlen < 0 || !text )
+        throw std::length_error("textlen is negative");
 
-        int consume  = m.second + m_patlen; // nbytes to consume
-        int matchoff = off + m.second;      // offset relative to start of text
+    int i,
+        q = 0;
 
-        text        += consume;
-        textlen     -= consume;
-        off         += consume;
+    for (i = 0; i < textlen; i++)
+    {
+        while (q > 0 && !traits_type::eq(m_pat[q], text[i]))
+            q = m_prefix_tab[q - 1];
+        if ( traits_type::eq(m_pat[q], text[i]) )
+            q++;
+        if (q == m_patlen)
+        {
+            r.push_back(i + 1 - m_patlen);
 
-        r.push_back(matchoff);
+            // the next match may overlap this one
+            q = m_prefix_tab[q - 1];
+        }
     }
     return r;
 }
-- 
2.43.0


From 923c1b2bd09d186a4f77cca6d42c2aa50b45535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 115/178] fix: strmatch: boyer_moore_search indexed its table
 with negative characters

---
 inc/utils/strmatch.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 4aa7cc4..3ee2c07 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -217,6 +217,10 @@ public:
 
 
 protected:
+    // index of a character in the bad character table; a character
+    // type may be signed.
+    static size_t idx(T c) { return size_t(c) & (_bm_alphabet_size - 1); }
+
     void calc_suffixes(std::vector<int>& suff);
     void calc_bad_char();
     void calc_good_shift();
@@ -244,7 +248,7 @@ template<typename T> void boyer_moore_search<T>::calc_bad_char()
         m_bad_char[i] = m_patlen;
 
     for (i = 0; i < m1; i++)
-        m_bad_char[m_pat[i]] = m1 - i;
+        m_bad_char[idx(m_pat[i])] = m1 - i;
 }
 
 template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>& suff)
@@ -351,7 +355,7 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
             j += m_good_shift[0];
         }
         else
-            j += std::max(m_good_shift[i], m_bad_char[text[i+j]] - m_patlen + 1 + i);
+            j += std::max(m_good_shift[i], m_bad_char[idx(text[i+j])] - m_patlen + 1 + i);
     }
 
     return r;
@@ -394,7 +398,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         {
             v           = m_patlen - 1 - i;
             turbo_shift = u - v;
-            bc_shift    = m_bad_char[text[i+j]] - m_patlen + 1 + i;
+            bc_shift    = m_bad_char[idx(text[i+j])] - m_patlen + 1 + i;
             shift       = std::max(turbo_shift, bc_shift);
             shift       = std::max(shift, m_good_shift[i]);
             if (shift == m_good_shift[i])
-- 
2.43.0


From 3abb985842c2a5cfb09983fa386ca7eeab075662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 116/178] fix: strmatch: rabin_karp_search read beyond the text
 and overflowed for patterns beyond 31 characters

---
 inc/utils/strmatch.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 3ee2c07..f42f5c2 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -474,14 +474,17 @@ template<typename T> std::vector<int>
 rabin_karp_search<T>::matchall(const T * text, int textlen)
 {
 #define _rehash(a,b,h)   ((((h) - ((a) * d)) << 1) + (b))
-    int d, i, j, q,
-        h_pat, h_txt;
+    int i, j, q;
+    unsigned int d, h_pat, h_txt;   // arithmetic is modulo 2^32
 
 
     std::vector<int> r;
 
+    if (textlen < m_patlen)
+        return r;
+
     // compute d = 2^(m-1)
-    d = 1 << (m_patlen-1);
+    d = m_patlen > 32 ? 0 : 1u << (m_patlen-1);
     for (h_pat = h_txt = i = 0; i < m_patlen; ++i)
     {
         h_pat = (h_pat << 1) + m_pat[i];
@@ -496,7 +499,8 @@ rabin_karp_search<T>::matchall(const T * text, int textlen)
         {
             r.push_back(j);
         }
-        h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
+        if (j < q)
+            h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
         ++j;
     }
 
-- 
2.43.0


From 6fef7e0739a8bf3adc9721d790113a6b14d51f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 117/178] fix: strmatch: turbo_matchall skipped occurrences

---
 inc/utils/strmatch.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index f42f5c2..30d6a78 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -405,8 +405,9 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
                 u = std::min(m_patlen - shift, v);
             else
             {
-                if (turbo_shift < bc_shift)
-                    shift = std::max(shift, u+1);
+                // NB: the published algorithm shifts by at least u+1
+                // if turbo_shift < bc_shift; that can skip a match,
+                // e.g. of "hahbhhah" in "hahbhhahhahbhhah".
                 u = 0;
             }
         }
-- 
2.43.0


From 8cc73e7bd9cbcf218bbfd00c8a84737ebb458bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 118/178] fix: getopt_long took an exact match for an ambiguous
 abbreviation

---
 src/getopt_long.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..303d9a2 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -355,10 +355,11 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, ambiguous;
 
         current_argv = place;
         match = -1;
+        ambiguous = 0;
 
         optind++;
         place = EMSG;
@@ -393,18 +394,23 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                 (unsigned)current_argv_len) {
                 /* exact match */
                 match = i;
+                ambiguous = 0;
                 break;
             }
             if (match == -1)        /* partial match */
                 match = i;
-            else {
+            else if (long_options[i].has_arg != long_options[match].has_arg ||
+                     long_options[i].flag    != long_options[match].flag    ||
+                     long_options[i].val     != long_options[match].val)
+                ambiguous = 1;      /* unless an exact match follows */
+        }
+        if (ambiguous) {
                 /* ambiguous abbreviation */
                 if (PRINT_ERROR)
                     warnx(ambig, (int)current_argv_len,
                          current_argv);
                 optopt = 0;
                 return BADCH;
-            }
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From 5b39ab05740c535d768ad8ad015d612a9a1a8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 119/178] fix: getopt_long did not start afresh when optind is
 0

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 303d9a2..4ddeddd 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -185,7 +185,7 @@ getopt_internal(int nargc, char * const *nargv, const char *options)
      * XXX properly function again.  Work around this braindamage.
      */
     if (optind == 0)
-        optind = 1;
+        optind = optreset = 1;
 
     if (optreset)
         nonopt_start = nonopt_end = -1;
-- 
2.43.0


From 8e13c5690482abc0ffa387852b4acd2bb9fc8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 120/178] fix: getopt_long printed errors although the options
 begin with '+:' or '-:'

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 4ddeddd..fd73d80 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -58,7 +58,7 @@ int optreset;/* reset getopt */
 
 #define IGNORE_FIRST        (*options == '-' || *options == '+')
 #define PRINT_ERROR         ((opterr) && ((*options != ':') \
-                                || (IGNORE_FIRST && options[1] != ':')))
+                                && !(IGNORE_FIRST && options[1] == ':')))
 #define IS_POSIXLY_CORRECT  (getenv("POSIXLY_CORRECT") != NULL)
 #define PERMUTE             (!IS_POSIXLY_CORRECT && !IGNORE_FIRST)
 
-- 
2.43.0


From 6c70469905648014a87f463ad440c242231c277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 121/178] fix: getopt took any long option for the end of the
 options

---
 src/getopt_long.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index fd73d80..4fa220f 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -73,7 +73,7 @@ int optreset;/* reset getopt */
 
 #define EMSG    ""
 
-static int getopt_internal(int, char * const *, const char *);
+static int getopt_internal(int, char * const *, const char *, int);
 static int gcd(int, int);
 static void permute_args(int, int, int, char * const *);
 
@@ -169,7 +169,7 @@ permute_args(int panonopt_start, int panonopt_end, int opt_end, char * const *na
  *  Returns -2 if -- is found (can be long option or end of options marker).
  */
 static int
-getopt_internal(int nargc, char * const *nargv, const char *options)
+getopt_internal(int nargc, char * const *nargv, const char *options, int islong)
 {
     char *oli;              /* option letter list index */
     int optchar;
@@ -244,7 +244,7 @@ start:
         }
         if (nonopt_start != -1 && nonopt_end == -1)
             nonopt_end = optind;
-        if (place[1] && *++place == '-') {  /* found "--" */
+        if (place[1] && *++place == '-' && (islong || !place[1])) {  /* found "--" */
             place++;
             return -2;
         }
@@ -259,8 +259,7 @@ start:
         optopt = optchar;
         return BADCH;
     }
-    if (optchar == 'W' && oli[1] == ';') {      /* -W long-option */
-        /* XXX: what if no long options provided (called by getopt)? */
+    if (islong && optchar == 'W' && oli[1] == ';') {      /* -W long-option */
         if (*place) 
             return -2;
 
@@ -318,7 +317,7 @@ getopt(int nargc, char * const *nargv, const char *options)
     assert(options != NULL);
     _program_name = nargv[0];
 
-    if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
+    if ((retval = getopt_internal(nargc, nargv, options, 0)) == -2) {
         ++optind;
         /*
          * We found an option (--), so if we skipped non-options,
@@ -352,7 +351,7 @@ getopt_long(int nargc, char * const *nargv, const char *options,
 
     _program_name = nargv[0];
 
-    if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
+    if ((retval = getopt_internal(nargc, nargv, options, 1)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
         int i, match, ambiguous;
-- 
2.43.0


From 828cad5acc530035e96ad9885d5b219df6eaf7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 122/178] fix: getopt_long accepted ';' as an option

---
 src/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 4fa220f..6fe3572 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -249,9 +249,9 @@ start:
             return -2;
         }
     }
-    if ((optchar = (int)*place++) == (int)':' ||
+    if ((optchar = (int)*place++) == (int)':' || optchar == (int)';' ||
         (oli = strchr(options + (IGNORE_FIRST ? 1 : 0), optchar)) == NULL) {
-        /* option letter unknown or ':' */
+        /* option letter unknown, ':' or ';' */
         if (!*place)
             ++optind;
         if (PRINT_ERROR)
-- 
2.43.0


From 0edd7132d481a9de37da74cdf3416ae5456b1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 123/178] fix: getopt_long reported a surplus argument as a
 missing one

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 6fe3572..1d8af96 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -425,7 +425,7 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                     optopt = long_options[match].val;
                 else
                     optopt = 0;
-                return BADARG;
+                return BADCH;       /* BADARG is for a missing argument */
             }
             if (long_options[match].has_arg == required_argument ||
                 long_options[match].has_arg == optional_argument) {
-- 
2.43.0


From 65a45951f7b5369797dcb655c6538876aed4b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 124/178] fix: getopt_long took an empty argument of -W for the
 end of the options

---
 src/getopt_long.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 1d8af96..35cdb70 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -363,7 +363,8 @@ getopt_long(int nargc, char * const *nargv, const char *options,
         optind++;
         place = EMSG;
 
-        if (*current_argv == '\0') {        /* found "--" */
+        if (*current_argv == '\0' &&
+            current_argv != nargv[optind-1]) {  /* found "--", not -W "" */
             /*
              * We found an option (--), so if we skipped
              * non-options, we have to permute.
-- 
2.43.0


From e7a81003760a01108fbd7c49e19c10208712c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 125/178] fix: getopt kept a pointer into the argument vector
 after the end

---
 src/getopt_long.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 35cdb70..09a92a8 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -319,6 +319,7 @@ getopt(int nargc, char * const *nargv, const char *options)
 
     if ((retval = getopt_internal(nargc, nargv, options, 0)) == -2) {
         ++optind;
+        place = EMSG;
         /*
          * We found an option (--), so if we skipped non-options,
          * we have to permute.
-- 
2.43.0


From 82d74cad55942aa715e32d77c09f3669e85ceea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 126/178] fix: z_buf: a negative result of the callback
 corrupted memory

---
 src/zbuf_c.c   | 2 +-
 src/zbuf_unc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..3e11522 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..a2e4447 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -129,7 +129,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
-- 
2.43.0


From f2edbcf567a66f8a795b170c6eb47ea4b4eb7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 127/178] fix: z_buf_uncompress_end lost the output and its
 memory when input was left

---
 src/zbuf_unc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index a2e4447..f41e29d 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -80,8 +80,13 @@ z_buf_uncompress_end (z_buf_context * zc)
     if ( zs->avail_in > 0 )
     {
         err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
+        if ( err == Z_STREAM_END )
+            err = Z_OK;
+        if ( err != Z_OK )
+        {
+            inflateEnd (zs);
             return err;
+        }
     }
 
     if ( zs->avail_out < zc->outbuf_size )
@@ -97,7 +102,10 @@ z_buf_uncompress_end (z_buf_context * zc)
             int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
             if ( used <= 0 )
+            {
+                inflateEnd (zs);
                 return Z_MEM_ERROR;
+            }
 
             buf  += used;
             rem  -= used;
-- 
2.43.0


From 0e828aaf79bfb6cdbee464639f82b7daaef08be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 128/178] fix: z_buf_compress_end leaked its memory after an
 error

---
 src/zbuf_c.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 3e11522..c77b437 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -135,7 +135,7 @@ z_buf_compress_end (z_buf_context * zc)
     {
         err = z_buf_compress (zc, 0, 0);
         if ( err != Z_OK )
-            return err;
+            goto fail;
     }
 
 
@@ -165,7 +165,10 @@ z_buf_compress_end (z_buf_context * zc)
                 int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
                 if ( used <= 0 )
-                    return Z_MEM_ERROR;
+                {
+                    err = Z_MEM_ERROR;
+                    goto fail;
+                }
 
                 buf  += used;
                 rem  -= used;
@@ -193,7 +196,7 @@ z_buf_compress_end (z_buf_context * zc)
         done = zs->avail_out != 0 || err == Z_STREAM_END;
 
         if ( err != Z_OK && err != Z_STREAM_END )
-            return err;
+            goto fail;
 
     } while (1);
 
@@ -201,6 +204,10 @@ z_buf_compress_end (z_buf_context * zc)
     deflateEnd (zs);
 
     return 0;
+
+fail:
+    deflateEnd (zs);
+    return err;
 }
 
 /* EOF */
-- 
2.43.0


From a0a3ad25f5526d314419a61bda442a12527e9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 129/178] fix: z_buf_uncompress lost output that was pending
 when the input ended

---
 src/zbuf_unc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index f41e29d..fc3c280 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -77,7 +77,7 @@ z_buf_uncompress_end (z_buf_context * zc)
     /*
      * Uncompress any pending data.
      */
-    if ( zs->avail_in > 0 )
+    if ( zs->avail_in > 0 || zs->avail_out == 0 )
     {
         err = do_uncompress (zs, zc);
         if ( err == Z_STREAM_END )
@@ -125,7 +125,11 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
 {
     int err = Z_OK;
 
-    while ( zs->avail_in > 0 )
+    /*
+     * When the output buffer is full, inflate() may hold on to more
+     * output even if it has consumed all the input.
+     */
+    while ( zs->avail_in > 0 || zs->avail_out == 0 )
     {
         if ( zs->avail_out == 0 )
         {
@@ -160,6 +164,9 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
         err = inflate (zs, Z_NO_FLUSH);
         if ( err == Z_STREAM_END )
             break;
+
+        if ( err == Z_BUF_ERROR && zs->avail_in == 0 )
+            return Z_OK;    /* no more output, needs more input */
         
         if ( err != Z_OK )
             return err;
-- 
2.43.0


From 897218df5e0638398500f85c047e2d610f15b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 130/178] fix: freadline wrote beyond the buffer and dropped a
 character of overlong lines

---
 src/freadline.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..f1e77dc 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -30,7 +30,11 @@
 int
 freadline(FILE* fp, unsigned char * str, int n)
 {
-    unsigned char * end = str + n;
+    unsigned char * start = str,
+                  * end   = str + n - 1;    // room for the trailing NUL
+
+    if (n <= 0)
+        return -ENOSPC;
 
     while (1)
     {
@@ -52,13 +56,17 @@ freadline(FILE* fp, unsigned char * str, int n)
         else if (c == '\n')
             break;
 
-        if (str == end)
+        if (str == end) {
+            // the rest of the line is left for the next call
+            ungetc(c, fp);
+            *str = 0;
             return -ENOSPC;
+        }
 
         *str++ = c;
     }
 
     *str = 0;
-    return str - (end - n);
+    return str - start;
 }
 
-- 
2.43.0


From 778e9dcdac0889a211d0e0d5f23dd6e17010fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 131/178] fix: freadline lost a last line without terminator
 and took errors for EOF

---
 src/freadline.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index f1e77dc..812daf1 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -39,11 +39,12 @@ freadline(FILE* fp, unsigned char * str, int n)
     while (1)
     {
         int c = fgetc(fp);
-        if (c == EOF)
-            return 0;
+        if (c == EOF) {
+            if (ferror(fp))
+                return -errno;
 
-        if (ferror(fp))
-            return -errno;
+            break;  // the last line may not have a line break
+        }
 
         if (c == '\r')
         {
-- 
2.43.0


From 7d3e2fdf6cbc8289b153680b637e67c02ac61a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 132/178] fix: cdb_find gave up at the first different key with
 the same hash

---
 src/cdb_read.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index efada4e..6ddd44c 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -153,17 +153,17 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
 
-            if (dklen != klen) return -ENOENT;
 
             // Sanity check
             assert((off+8+dklen+dvlen) <= db->size);
         
-            // key + value is at off+8
-            if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
-
-            // Value is at off+8+dklen
-            *p_ret = db->mmap + off + 8 + dklen;
-            return dvlen;
+            // key + value is at off+8; a different key can have the
+            // same hash.
+            if (dklen == klen && 0 == memcmp(key, db->mmap+off+8, klen)) {
+                // Value is at off+8+dklen
+                *p_ret = db->mmap + off + 8 + dklen;
+                return dvlen;
+            }
         }
 
         slot = (slot + 1) % ii->len;
-- 
2.43.0


From 497c8d9f283103496e058e7bfaec91b5c943e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 133/178] fix: cdb_find missed keys whose hash is 0

---
 src/cdb_read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index 6ddd44c..fc89fe5 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -146,7 +146,8 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
         uint32_t slothash = __read32(db, slotoff);
         uint32_t off      = __read32(db, slotoff+4);
 
-        if (slothash == 0) break;
+        // No record is at offset 0; but a key's hash can be zero.
+        if (off == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
-- 
2.43.0


From bfb38864582f92f289a8453e6f95680a9af8782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 134/178] fix: cdb_find read beyond the file or aborted for
 corrupt databases

---
 src/cdb_read.c   | 25 ++++++++++++++-----------
 src/cdb_reader.h |  1 +
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index fc89fe5..f840509 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -24,7 +24,6 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include <errno.h>
-#include <assert.h>
 #include <string.h>
 #include <stdlib.h>
 #include <sys/types.h>
@@ -38,10 +37,7 @@
 
 #ifdef __little_endian
 
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        (*pU32((d)->mmap+off));  \
-        })
+#define __read32(d, off)    (*pU32((d)->mmap+off))
 #else
 
 static inline uint32_t
@@ -52,13 +48,13 @@ dec_LE_u32(const uint8_t * p) {
            | (_u32(p[3]) << 24);
 }
 
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        dec_LE_u32((d)->mmap+off);     \
-        })
+#define __read32(d, off)    dec_LE_u32((d)->mmap+off)
 
 #endif /* __little_endian */
 
+// True if the 'n' bytes at 'off' are within the file
+#define __inside(d, off, n) ((uint64_t)(off) + (uint64_t)(n) <= (d)->size)
+
 extern uint64_t fasthash64(const void*, size_t, uint64_t);
 
 static inline uint32_t
@@ -129,6 +125,7 @@ fail:
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB is corrupt
  */
 ssize_t
 cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
@@ -142,7 +139,10 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
     uint32_t slot  = start;
 
      do {
-        uint32_t slotoff  = ii->off + (8 * slot);
+        uint64_t slotoff  = ii->off + (UINT64_C(8) * slot);
+
+        if (!__inside(db, slotoff, 8)) return -EINVAL;
+
         uint32_t slothash = __read32(db, slotoff);
         uint32_t off      = __read32(db, slotoff+4);
 
@@ -151,12 +151,15 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
 
         // Now, check to see if the key matches
         if (slothash == h) {
+            if (!__inside(db, off, 8)) return -EINVAL;
+
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
+            uint64_t kvlen = (uint64_t)dklen + dvlen;
 
 
             // Sanity check
-            assert((off+8+dklen+dvlen) <= db->size);
+            if (!__inside(db, UINT64_C(8) + off, kvlen)) return -EINVAL;
         
             // key + value is at off+8; a different key can have the
             // same hash.
diff --git a/src/cdb_reader.h b/src/cdb_reader.h
index f61c718..03cc91c 100644
--- a/src/cdb_reader.h
+++ b/src/cdb_reader.h
@@ -85,6 +85,7 @@ extern int cdb_read_init(CDB* db, const char* fname);
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB is corrupt
  */
 extern ssize_t cdb_find(CDB* db, void** p_ret, const void* key, size_t klen);
 
-- 
2.43.0


From c23ddb980e38db9ed1e7b7b7ec99f02742c3fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 135/178] fix: readpass looked at the byte before an empty line

---
 src/readpass.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..b6a84fc 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -118,7 +118,7 @@ ok:
     n = strlen(passbuf);
     if (n > 0) {
         if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
+        if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
     }
 
 
-- 
2.43.0


From c5b0614f03d2496d6a4cd76ec717baa0b5231463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 136/178] fix: readpass reported end of input as success

---
 src/readpass.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/readpass.c b/src/readpass.c
index b6a84fc..fa235d5 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -92,6 +92,7 @@ portable_readpass(char ** passwd, const char * prompt,
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
         if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
+            if (!ferror(readfrom)) errno = ENODATA;     // EOF
             r = -errno;
             warnp("Cannot read password");
             goto err2;
@@ -101,6 +102,7 @@ portable_readpass(char ** passwd, const char * prompt,
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
         if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
+            if (!ferror(readfrom)) errno = ENODATA;     // EOF
             r = -errno;
             warnp("Cannot read password");
             goto err2;
-- 
2.43.0


From defc38aa02d3aa14b6dae3f2cd2a4ce4002cca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 137/178] fix: progressbar stopped the program for most widths

---
 src/progbar.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..fdd519a 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -39,8 +39,8 @@
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width+1];
+    char blank[p->width+1];
     char cur[32];
     char tot[32];
     char pref[64];
@@ -49,11 +49,11 @@ update_total_progress(char *buf, size_t bsize, progress *p)
 
     if (pct > 100) pct = 100;
 
-    uint64_t done = pct / p->step;
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
-    assert(done < (sizeof fill)-1);
-    assert(rem  < (sizeof blank)-1);
+    assert(done < sizeof fill);
+    assert(rem  < sizeof blank);
 
     memset(fill, 'o', done); fill[done] = 0;
     memset(blank, '.', rem); blank[rem] = 0;
@@ -113,6 +113,8 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     p->cur   = 0;
     p->flags = flags;
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
+    if (p->width == 0) p->width = 1;
+
     p->step  = 100 / p->width;
 
     return 0;
-- 
2.43.0


From ddc2c8ee3bdd16a0305cf6bf4a8dec0eb9fdb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 138/178] fix: progressbar percentage overflowed for large
 totals

---
 src/progbar.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/progbar.c b/src/progbar.c
index fdd519a..763246f 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -45,7 +45,15 @@ update_total_progress(char *buf, size_t bsize, progress *p)
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
+    uint64_t pct = 100;
+
+    if (p->cur < p->total) {
+        // avoid overflow for large sizes
+        if (p->total > UINT64_MAX / 100)
+            pct = p->cur / (p->total / 100);
+        else
+            pct = (100 * p->cur) / p->total;
+    }
 
     if (pct > 100) pct = 100;
 
-- 
2.43.0


From f2aec884da631f561607643112a21b3fa6b587a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 139/178] fix: get_all_if_address returned -1 instead of the
 error

---
 src/c_resolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..3d2039c 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -199,7 +199,7 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
 
     r = getifaddrs(&ifa);
     if (r < 0)
-        return r;
+        return -errno;
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
-- 
2.43.0


From b909df06cb59f0c44d38ddec1fbf0c87ab5174cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 140/178] fix: resolve_host_or_ifname could report a failed
 lookup as success

---
 src/c_resolve.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 3d2039c..b50e531 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -434,8 +434,23 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
-        return -errno;
+    switch (n) {
+        case 0:
+            break;
+
+        // only this error is reported via errno
+        case EAI_SYSTEM:
+            return -errno;
+
+        case EAI_MEMORY:
+            return -ENOMEM;
+
+        case EAI_AGAIN:
+            return -EAGAIN;
+
+        default:
+            return -ENOENT;
+    }
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From ddb202f42130da2799f2eac03c7e82faafb27d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 141/178] fix: resolve_host_or_ifname took a host name for the
 interface it starts with

---
 src/c_resolve.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index b50e531..c02ccc3 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -106,9 +106,14 @@ hexdump(const char* prefix, const void * buf, size_t bufsiz)
 static int
 is_ifname(const char* name)
 {
-    int fd = socket(AF_INET, SOCK_STREAM, 0);
+    int fd;
     int r = 0;
 
+    // Don't mistake a long name for the interface it starts with.
+    if (strlen(name) >= IFNAMSIZ)
+        return 0;
+
+    fd = socket(AF_INET, SOCK_STREAM, 0);
     if (fd >= 0) {
         struct ifreq ifr;
         memset(&ifr, 0, sizeof ifr);
-- 
2.43.0


From 6658cddf3dbd3ab2c21bdbad4383b02e49cfb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 142/178] fix: sockaddr_to_string wrote past a short buffer for
 link addresses

---
 src/c_resolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index c02ccc3..ec0ae36 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -144,6 +144,11 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            if (bufsiz < 6 * 3) {
+                errno = ENOSPC;
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
-- 
2.43.0


From c75be2ed580c31058c2732432dce952a7eb73803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 143/178] fix: get_all_if_address leaked memory when it failed

---
 src/c_resolve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index ec0ae36..703aa62 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -197,8 +197,6 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
     iftmp* prev;
     if_address * cur;
 
-    VECT_INIT(&av, 8);
-
     VECT_RESET(addrv);
     VECT_RESERVE(addrv, 8);
 
@@ -211,6 +209,7 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
     if (r < 0)
         return -errno;
 
+    VECT_INIT(&av, 8);
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
         if_addr * a = &t.ifa;
-- 
2.43.0


From 6881ba675554cd1cf1c478605e1df95bd655c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 144/178] fix: mkgetopt failed for specifications without a
 description

---
 tools/mkgetopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 9d2afce..161641e 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -859,8 +859,8 @@ extern const char* %s(void);\n\n""" % self.description_fp
             self.usage     = '""'
             self.usage_decl = ""
 
-        brief = self.description[0]
-        if not brief.endswith('.'):
+        brief = self.description[0] if self.description else ""
+        if brief and not brief.endswith('.'):
             brief += '.'
 
         desc = ' '.join(self.description[1:])
-- 
2.43.0


From f55107ace39b12fc7a9a8d0543e4500673a20b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 145/178] fix: mkgetopt: integer options were never marked
 present, and wrong integers accepted

---
 tools/mkgetopt.py | 68 ++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 161641e..378688f 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -82,7 +82,7 @@ class opt_int(opt_type):
             {
                 opt->%(varname)s = (%(ctype)s)grok_int(optarg, "%(optname)s",
                                     &opt->%(varname_p)s, &errs,
-                                    %(limit)s, 1);
+                                    %(minimum)s, %(limit)s);
             }
 """
 
@@ -92,7 +92,7 @@ class opt_int(opt_type):
     def is_int(self):
         return True
 
-    def generic_int(self, opt, limit):
+    def generic_int(self, opt, minimum, limit):
         optname = opt.long_opt
         if not optname:
             optname = opt.short_opt
@@ -118,6 +118,7 @@ class opt_int(opt_type):
             'varname_p': opt.varname_p,
             'ctype':    self.ctype,
             'limit':    limit,
+            'minimum':  minimum,
             'optname':  optname,
             'default':  defval,
         }
@@ -150,10 +151,12 @@ class opt_int(opt_type):
         elif self.ctype.endswith('long'):
             max = "LONG_MAX"
 
+        min = max.replace('MAX', 'MIN')
         if self.ctype.startswith('unsigned'):
             max = 'U' + max
+            min = '0'
 
-        return self.generic_int(opt, max)
+        return self.generic_int(opt, min, max)
 
 class opt_size(opt_type):
     template = """
@@ -886,7 +889,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
         if self.needs_int:
-            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int has_limit);\n"
+            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, long minimum, unsigned long limit);\n"
             template += Grok_int_template
 
         if self.needs_size:
@@ -1507,53 +1510,56 @@ Grok_int_template = """
  * @param option  The corresponding option string (for emitting errors)
  * @param present Output value -- true if there are no errors, false otherwise
  * @param err     Output value -- incremented on errors
+ * @param minimum The least permissible value
  * @param limit   The maximum permissible limit for this integer
- * @param has_limit   Set if the corresponding option had a size limitation
- *                (e.g., a short integer etc.)
  * @return Converted string value.
  */
 static unsigned long
 grok_int(const char * str, const char * option, char * present, int * err,
-            unsigned long limit, int has_limit)
+            long minimum, unsigned long limit)
 {
+    const char * digits = str;
     char * xxend = 0;
-    long lim_pos = (long) limit,
-         lim_neg = -lim_pos - 1;
     int isneg = 0;
-    union
-    {
-        long l;
-        unsigned long ul;
-    } un;
-
-    if (*str == '-') {
-        ++str;
+    unsigned long ul;
+
+    if (*digits == '-') {
+        ++digits;
         isneg = 1;
+    } else if (*digits == '+')
+        ++digits;
+
+    if (!isdigit((unsigned char)*digits)) {
+        *err += 1;
+        error(0, 0, "Invalid integer '%%s' for option '%%s'", str, option);
+        return 0;
     }
 
-    un.ul = strtoul(str, &xxend, 0);
+    errno = 0;
+    ul = strtoul(digits, &xxend, 0);
     if (xxend && *xxend)
         error(0, 0, "Ignoring trailing characters '%%s' for option '%%s'", xxend, option);
 
     if (isneg) {
-        un.l *= -1;
-    }
+        /* The magnitude of 'minimum', computed without overflow */
+        unsigned long max_neg = 0UL - (unsigned long)minimum;
 
-    if (has_limit) {
-        if (isneg && un.l < lim_neg) {
+        if (errno == ERANGE || ul > max_neg) {
             *err += 1;
-            error(0, 0, "Integer value '-%%s' underflow for option '%%s' (min %%ld)",
-                    str, option, lim_neg);
-        } else if (!isneg && un.ul > (unsigned long)lim_pos) {
-            *err += 1;
-            error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
-                    str, option, lim_pos);
+            error(0, 0, "Integer value '%%s' underflow for option '%%s' (min %%ld)",
+                    str, option, minimum);
+            return 0;
         }
+        ul = 0UL - ul;
+    } else if (errno == ERANGE || ul > limit) {
+        *err += 1;
+        error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
+                str, option, limit);
+        return 0;
     }
-    else
-        *present = 1;
 
-    return un.ul;
+    *present = 1;
+    return ul;
 }
 """
 
-- 
2.43.0


From b24e96b8f354d1282f36cbccf313bafa749d7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 146/178] fix: mkgetopt: sizes that overflow or are negative
 were accepted

---
 tools/mkgetopt.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 378688f..e5640c0 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1603,7 +1603,14 @@ grok_size(const char * str, const char * option, char * present, int * err)
 #define _TB         (_GB * 1024)
 #define _PB         (_TB * 1024)
 
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        error(0, 0, "Invalid size '%%s' for option '%%s'", str, option);
+        return 0;
+    }
+
     *present = 1;
+    errno  = 0;
     xxbase = strtoull(str, &xxend, 0);
 
     if (xxend && *xxend) {
@@ -1633,15 +1640,15 @@ grok_size(const char * str, const char * option, char * present, int * err)
                 break;
         }
 
-        xxval = xxbase * xxmult;
-        if ((xxbase == UL_MAX__ && errno == ERANGE) || (xxval < xxbase)) {
-            errs++;
-            error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
-                    option, xxbase, xxmult);
-            *present = 0;
-        }
-    } else
-        xxval = xxbase;
+    }
+
+    xxval = xxbase * xxmult;
+    if (errno == ERANGE || xxbase > UL_MAX__ / xxmult) {
+        errs++;
+        error(0, 0, "Size value overflow for option '%%s' (base %%llu, multiplier %%llu)",
+                option, (unsigned long long)xxbase, (unsigned long long)xxmult);
+        *present = 0;
+    }
 
     *err += errs;
     return xxval;
-- 
2.43.0


From a7d53ff6348660ba5a156960a36f781643e081a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 147/178] fix: mkgetopt: a floating point value with trailing
 characters was lost

---
 tools/mkgetopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index e5640c0..d234779 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -297,10 +297,10 @@ class opt_float(opt_type):
                         ++errs;
                         error(0, 0, "Invalid characters '%%s' for floating point value in option '%(optname)s'", xxptr);
                     }
-                    else if (*xxptr)
-                        error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                     else
                     {
+                        if (*xxptr)
+                            error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                         opt->%(varname)s = xxdbl;
                         opt->%(varname_p)s = 1;
                     }
-- 
2.43.0


From e3ed9dc7667cc17c6f142c63f10bfe11e88ae6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 148/178] fix: mkgetopt: an optional floating point argument
 did not mark the option present

---
 tools/mkgetopt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index d234779..06e9f62 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -306,7 +306,7 @@ class opt_float(opt_type):
                     }
                 }
             }
-            break;\n\n"""
+"""
 
     def __init__(self, **kwargs):
         opt_type.__init__(self, **kwargs)
@@ -330,6 +330,10 @@ class opt_float(opt_type):
         }
 
         case_str   = self.template % d
+        if opt.optarg:
+            case_str += self.optional_arg_template % d
+
+        case_str  += " " * 12 + "break;\n\n"
         type_str   = ' ' * 4 + "%(ctype)s %(varname)s;\n" % d
         type_str_p = ' ' * 4 + "char %(varname_p)s;\n" % d
         init_str   = ' ' * 4 + "opt->%(varname)s = %(default)s;\n" % d
-- 
2.43.0


From 19308e11888ff9b699f1eabcdc5a5513a8d10f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 149/178] fix: mkgetopt failed for placeholders of type size or
 float without a default

---
 tools/mkgetopt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 06e9f62..a66ac9b 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -176,7 +176,7 @@ class opt_size(opt_type):
         if not optname:
             optname = opt.short_opt
 
-        defval = groksize(opt.default)
+        defval = groksize(opt.default or "0")
 
         d = {
             'varname': opt.varname,
@@ -316,8 +316,10 @@ class opt_float(opt_type):
         if not optname:
             optname = opt.short_opt
 
+        defstr = opt.default or "0"
+
         try:
-            dblval = float(opt.default)
+            dblval = float(defstr)
         except:
             raise Invalid_Default("Invalid chars in floating point value '%s'" % opt.default)
 
@@ -326,7 +328,7 @@ class opt_float(opt_type):
             'varname_p': opt.varname_p,
             'ctype':     self.ctype,
             'optname':   optname,
-            'default':   opt.default,
+            'default':   defstr,
         }
 
         case_str   = self.template % d
-- 
2.43.0


From 0d137a511172bbbea1296d561e7c8ccad05ee4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 150/178] fix: mkgetopt did not understand single quotes in the
 first field

---
 tools/mkgetopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index a66ac9b..34f14b1 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1108,7 +1108,7 @@ class line_parser:
         if c.isspace():
             return self.INSPACE
 
-        elif c == '"' or c == '"':
+        elif c == '"' or c == "'":
             self.quotechar = c
             return self.INQUOTE
         else:
-- 
2.43.0


From ce13fe785ab2b2aa90308e733bad8008737ad029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 151/178] fix: mkgetopt: callbacks had the wrong type with
 another symbol prefix

---
 tools/mkgetopt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 34f14b1..6ddafe4 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -907,6 +907,12 @@ extern const char* %s(void);\n\n""" % self.description_fp
             decls += "static char* dupstr(const char*);\n"
             template += Dupstr_template
 
+        prefix   = onames.prefix or self.sym_prefix
+        typename = "%s_option" % prefix
+
+        # the callbacks refer to this struct
+        self.structname = 'struct %s' % typename
+
         # add the builtin options to list of data that must be
         # processed.
         if not self.noversion:
@@ -959,9 +965,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
         # Fixup help string with program description and such.
         self.format_help()
 
-        prefix   = onames.prefix or self.sym_prefix
-        typename = "%s_option" % prefix
-
         d = {
             'typestr':   typestmt,
             'typestr_p': typestmt_p,
@@ -984,7 +987,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
             'usage_decl':  self.usage_decl,
 
             'prefix':      prefix,
-            'structname': 'struct %s' % typename,
+            'structname':  self.structname,
             'typename':    typename,
         }
         
-- 
2.43.0


From b186902ae9e3879e06c0e7d0e0b1cda526b3b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 152/178] fix: mkgetopt: the command line prefix took
 precedence over the directive

---
 tools/mkgetopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 6ddafe4..6acf00d 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -758,8 +758,8 @@ class output_state:
 
     def __init__(self, **kwargs):
         self.__dict__.update(kwargs)
-        self.sym_prefix     = "opt"
-        self.typename       = self.sym_prefix + "_option"
+        self.sym_prefix     = None
+        self.typename       = "opt_option"
         self.structname     = 'struct %s' % self.typename
         self.nopermute      = False
         self.noversion      = False
@@ -907,7 +907,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
             decls += "static char* dupstr(const char*);\n"
             template += Dupstr_template
 
-        prefix   = onames.prefix or self.sym_prefix
+        prefix   = self.sym_prefix or onames.prefix or "opt"
         typename = "%s_option" % prefix
 
         # the callbacks refer to this struct
-- 
2.43.0


From 12deb721c7014ff9bff998d97f5778bd946e5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 153/178] fix: mkgetopt: code without any long option did not
 compile

---
 tools/mkgetopt.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 6acf00d..873b1b1 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -651,7 +651,7 @@ class option:
             self.longopt_str = ""
             return
 
-        s = '    , {"' + self.long_opt + '",'
+        s = '    {"' + self.long_opt + '",'
         s += ' ' * (32 - len(self.long_opt))
         if self.hasarg:
             if self.optarg:
@@ -663,7 +663,7 @@ class option:
 
         s += " 0, "
         s += "%d" % self.optnum
-        s += "}\n"
+        s += "},\n"
 
         #print "LONG: |%s|" % s
         self.longopt_str = s
@@ -953,10 +953,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
 
-        # Erase leading ',' of long-options. This is the first option
-        i = longopt.find(',')
-        longopt = longopt[:i] + ' ' + longopt[i+1:]
-
         # If no permute is given, tell getopt_long() by prefixing with
         # '+'
         if self.nopermute:
@@ -1397,7 +1393,7 @@ C_template = """/*
 static const struct option Long_options[] =
 {
 %(longopt)s
-    , {0, 0, 0, 0}
+    {0, 0, 0, 0}
 };
 
 static const char Short_options[] = "%(shortopt)s";
-- 
2.43.0


From 9ff62da49083f578bc102b1de5eac1a1232789d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 154/178] fix: mkgetopt: an option could not replace a disabled
 builtin one

---
 tools/mkgetopt.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 873b1b1..54ec3df 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -840,16 +840,22 @@ class output_state:
         This is called when the directive '%nohelp' is recognized.
         """
         self.nohelp = True
-        del self.longmap['help']
-        del self.shortmap['h']
+        self.del_builtin('help', 'h')
 
     def del_version(self):
         """Remove the --version option.
         This is called when the directive '%nohelp' is recognized.
         """
         self.noversion = True
-        del self.longmap['version']
-        del self.shortmap['V']
+        self.del_builtin('version', 'V')
+
+    def del_builtin(self, long_opt, short_opt):
+        """Forget a builtin option. Its names can now be used by others."""
+        o = self.longmap.get(long_opt)
+        if o and o.builtin:
+            del self.longmap[long_opt]
+            del self.shortmap[short_opt]
+            del self.varmap[o.varname]
 
 
     def format_help(self):
-- 
2.43.0


From 652e0e52b112e18d0a25e21f17b8e209e256cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 155/178] fix: mkgetopt: code with string placeholders only did
 not link

---
 tools/mkgetopt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 54ec3df..c2ca5a1 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -605,13 +605,16 @@ class option:
         if ty is None:
             raise Invalid_Option("Option '%s' has invalid type %s" % (optname, self.type))
 
+        # The default value of every string is copied; even that of
+        # a placeholder.
+        if ty.is_string():
+            self.is_string = True
+
         if not self.placeholder:
             if ty.is_int():
                 self.is_int = True
             elif ty.is_size():
                 self.is_size = True
-            elif ty.is_string():
-                self.is_string = True
 
         if ty.needsarg:
             self.optarg = optarg
-- 
2.43.0


From e2072eb7f99629764560ee00ad047307d9ad3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 156/178] fix: error, warn, die: don't look before the start of
 an empty message

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..80d5cf5 100644
--- a/src/error.c
+++ b/src/error.c
@@ -95,7 +95,7 @@ error(int status, int err, const char *fmt, ...)
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
@@ -120,7 +120,7 @@ vprint(FILE *fp, const char *fmt, va_list ap)
         n = max;
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From 12ad0c3143043e4936da7c070711df4aecb17caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 157/178] fix: warn, die: end a truncated message with its
 newline

---
 src/error.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 80d5cf5..7c93552 100644
--- a/src/error.c
+++ b/src/error.c
@@ -116,8 +116,8 @@ vprint(FILE *fp, const char *fmt, va_list ap)
     int n = vsnprintf(buf, max, fmt, ap);
     if (n < 0 || ((size_t)n) >= max) {
         // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        n = max - 1;
+        buf[n] = 0;
     }
 
     if (n == 0 || buf[n-1] != '\n') {
-- 
2.43.0


From dd4527315d3a016a5c03c3fc58326d91f3c1fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 158/178] fix: fts_read leaves the stream pointing to freed
 memory when it cannot change directories

---
 src/fts.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 2f76df7..d73aa62 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -429,6 +429,8 @@ fts_read(FTS *sp)
 	/* Move to the next node on this level. */
 next:	tmp = p;
 	if ((p = p->fts_link) != NULL) {
+		/* don't leave fts_cur dangling if we stop below */
+		sp->fts_cur = p;
 		fts_free(tmp);
 
 		/*
@@ -476,6 +478,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 
 	/* Move up to the parent node. */
 	p = tmp->fts_parent;
+	sp->fts_cur = p;
 	fts_free(tmp);
 
 	if (p->fts_level == FTS_ROOTPARENTLEVEL) {
-- 
2.43.0


From 2ff868c39c32bdeef83c227b2eb09daabb21d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 159/178] fix: fts loses the entries of a directory it cannot
 come back from

---
 src/fts.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index d73aa62..879260a 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -891,6 +891,9 @@ mem1:				saved_errno = errno;
 	    (cur->fts_flags & FTS_SYMFOLLOW) ?
 	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
+		saved_errno = errno;
+		fts_lfree(head);
+		errno = saved_errno;
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
 		return (NULL);
-- 
2.43.0


From fa249cbcf7fb5cbde9502929c892a10cb786d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 160/178] fix: fts reads the wrong directories below one it
 could list but not enter

---
 src/fts.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 879260a..d4dbf13 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -412,9 +412,14 @@ fts_read(FTS *sp)
 			if (fts_safe_changedir(sp, p, -1, p->fts_accpath)) {
 				p->fts_errno = errno;
 				p->fts_flags |= FTS_DONTCHDIR;
-				for (p = sp->fts_child; p; p = p->fts_link)
-					p->fts_accpath =
-					    p->fts_parent->fts_accpath;
+				for (tmp = p, p = sp->fts_child; p; p = p->fts_link) {
+					p->fts_accpath = tmp->fts_accpath;
+					/* their access path is another directory */
+					if (p->fts_info == FTS_D) {
+						p->fts_info = FTS_DNR;
+						p->fts_errno = tmp->fts_errno;
+					}
+				}
 			}
 		} else if ((sp->fts_child = fts_build(sp, BREAD)) == NULL) {
 			if (ISSET(FTS_STOP))
-- 
2.43.0


From d748a6a5cb9bac98314718a07c2e4f31a4398296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 161/178] fix: fts takes a directory it could not read to its
 end for a complete one

---
 src/fts.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index d4dbf13..f99fa2f 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -648,7 +648,7 @@ fts_build(FTS *sp, int type)
 	DIR *dirp;
 	void *oldaddr;
 	size_t dnamlen;
-	int cderrno, descend, level, nlinks, saved_errno, nostat;
+	int cderrno, rderrno, descend, level, nlinks, saved_errno, nostat;
 	size_t len, maxlen;
 #ifdef FTS_WHITEOUT
 	int oflag;
@@ -760,7 +760,8 @@ fts_build(FTS *sp, int type)
 	level = cur->fts_level + 1;
 
 	/* Read the directory, attaching each entry to the `link' pointer. */
-	for (head = tail = NULL, nitems = 0; (dp = readdir(dirp)) != NULL;) {
+	for (head = tail = NULL, nitems = 0;
+	    (errno = 0, dp = readdir(dirp)) != NULL;) {
 
 		if (!ISSET(FTS_SEEDOT) && ISDOT(dp->d_name))
 			continue;
@@ -874,6 +875,10 @@ mem1:				saved_errno = errno;
 		}
 		++nitems;
 	}
+
+	/* An incomplete list is reported with the directory's last visit. */
+	if ((rderrno = errno) != 0)
+		cur->fts_errno = rderrno;
 	(void)closedir(dirp);
 
 	/*
@@ -907,7 +912,8 @@ mem1:				saved_errno = errno;
 	/* If didn't find anything, return NULL. */
 	if (!nitems) {
 		if (type == BREAD)
-			cur->fts_info = FTS_DP;
+			cur->fts_info = rderrno ? FTS_ERR : FTS_DP;
+		errno = rderrno;
 		return (NULL);
 	}
 
-- 
2.43.0


From e89d3e53139a679f11481f3fb3eb2bbf87465bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 162/178] fix: mmap_file leaks its descriptor when the file
 cannot be examined

---
 src/posix/mmap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 0b9bf17..f132f7d 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -50,7 +50,12 @@ mmap_file::mmap_file(const string& fname, unsigned int flags)
 
     struct stat st;
     if ( ::fstat(fd, &st) < 0 )
-        throw sys_exception(geterror(), "Can't query '%s'", fn());
+    {
+        syserror e = geterror();
+
+        ::close(fd);
+        throw sys_exception(e, "Can't query '%s'", fn());
+    }
 
 
     m_filesize = st.st_size;
-- 
2.43.0


From 7bc8aaf7ba386844799f352450ad17fb03e36098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 163/178] fix: mmap_file misstates offsets and sizes in its
 errors

---
 src/posix/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index f132f7d..9935b7f 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -91,12 +91,12 @@ mmap_file::mmap(off_t off, size_t size)
     off_t newsz = off + size;
     if (newsz > m_filesize) {
         if (! (m_flags & MMAP_CREATE))
-            throw sys_exception("mmap offset '%ull' for '%s' out of bounds",
-                                 off, fn());
+            throw sys_exception("mmap offset '%lld' for '%s' out of bounds",
+                                 (long long)off, fn());
 
         if (::ftruncate(int(m_fd), newsz) < 0)
-            throw sys_exception(geterror(), "Can't truncate '%s' to %ull bytes",
-                                 fn(), newsz);
+            throw sys_exception(geterror(), "Can't truncate '%s' to %lld bytes",
+                                 fn(), (long long)newsz);
 
         m_filesize = newsz;
     }
-- 
2.43.0


From 33ad3414ff306c50f7829460c8bdb4e0dc931ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 164/178] fix: mmap_file does not lock the last page of bytes
 that straddle a page boundary

---
 src/posix/mmap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 9935b7f..63799f1 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -139,6 +139,8 @@ mmap_file::mlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
 
+    // keep the end: the bytes may straddle a page boundary
+    n  += (uintptr_t)ptr & (pgsize - 1);
     ptr = align_down(ptr, pgsize);
     n   = align_up(n, pgsize);
 
@@ -153,6 +155,8 @@ mmap_file::munlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
 
+    // keep the end: the bytes may straddle a page boundary
+    n  += (uintptr_t)ptr & (pgsize - 1);
     ptr = align_down(ptr, pgsize);
     n   = align_up(n, pgsize);
 
-- 
2.43.0


From 0dbc29656e92f08c7dace9c8a15f9c35e72c2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 165/178] fix: configuration files cannot be linked: gstr_init2
 does not exist

---
 src/configfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index 5d60404..16ec7d4 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -105,7 +105,7 @@ newnode(node* parent, gstr* g, int col)
     n->master = ':' == gstr_chop_if(g, ":");
 
     if (n->master) {
-        gstr_init2(&n->name, g);
+        gstr_init_from(&n->name, gstr_str(g));
         VECT_INIT(&n->values, 4);
         DL_INIT(&n->subtree);
 
-- 
2.43.0


From 21a55cd1108ad58a7fa231b03d4e1930c4218ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 166/178] fix: reading a configuration file leaks memory for
 every entry

---
 src/configfile.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/configfile.c b/src/configfile.c
index 16ec7d4..81c6e4c 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -90,21 +90,24 @@ readline(gstr* g, FILE* fp)
 
 
 
-// Create a new node and add it to 'parent'.
+// Add the line 'g' to 'parent': a new node if it starts a section or
+// a key-value pair. Return the new node, 0 for a key-value pair.
 static node*
 newnode(node* parent, gstr* g, int col)
 {
-    node* n = NEWZ(node);
+    node* n = 0;
 
-    assert(n);
     assert(parent);
 
     gstr_trim(g);
 
-    n->col    = col;
-    n->master = ':' == gstr_chop_if(g, ":");
+    if (':' == gstr_chop_if(g, ":")) {
+        n = NEWZ(node);
+        assert(n);
+
+        n->col    = col;
+        n->master = 1;
 
-    if (n->master) {
         gstr_init_from(&n->name, gstr_str(g));
         VECT_INIT(&n->values, 4);
         DL_INIT(&n->subtree);
@@ -193,7 +196,7 @@ parse(configfile* cf, FILE* fp)
         }
 
         if (c > prevcol) {
-            if (!prev->master)
+            if (!prev)
                 error(1, 0, "%s:%d: Indented node '%12.12s..' has no parent?", cf->name, lineno, gstr_str(&l));
 
             VECT_PUSH_BACK(&st, top);
-- 
2.43.0


From 5d9cd445f78ee07dba49fde4d0b8a1a016208c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 167/178] fix: a line of only white space becomes an empty
 configuration entry

---
 src/configfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index 81c6e4c..0739cc1 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -190,7 +190,8 @@ parse(configfile* cf, FILE* fp)
         int i = 0;
         int c = cols(&l, &i);
 
-        if (gstr_ch(&l, i) == '#') {
+        // skip comments and lines of only white space
+        if (i == gstr_len(&l) || gstr_ch(&l, i) == '#') {
             gstr_reset(&l);
             continue;
         }
-- 
2.43.0


From ded0157a6af0d6c915d50f9b91a7e9f637874b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 168/178] fix: an empty line does not end a continued
 configuration line

---
 src/configfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index 0739cc1..94b2357 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -176,7 +176,8 @@ parse(configfile* cf, FILE* fp)
     while (readline(g, fp)) {
         lineno++;
 
-        if (gstr_len(g) == 0)
+        // an empty line ends a continued line
+        if (gstr_len(g) == 0 && gstr_len(&l) == 0)
             continue;
 
         if (gstr_chop_if(g, "\\") == '\\') {
-- 
2.43.0


From 0f6634937557e52453c43bad4a4a60813e856978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 169/178] fix: a configuration line continued at the end of the
 file is lost

---
 src/configfile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/configfile.c b/src/configfile.c
index 94b2357..73c6534 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -173,8 +173,15 @@ parse(configfile* cf, FILE* fp)
 
     cf->root = top;
 
-    while (readline(g, fp)) {
-        lineno++;
+    int more = 1;
+    while (more) {
+        more = readline(g, fp);
+
+        // at the end of file, what is left is a line continued there
+        if (!more && gstr_len(&l) == 0)
+            break;
+
+        if (more) lineno++;
 
         // an empty line ends a continued line
         if (gstr_len(g) == 0 && gstr_len(&l) == 0)
-- 
2.43.0


From 1248d037ffd2c6f5974383e5a2da436bde7e9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 170/178] fix: configuration numbers that overflow with their
 unit are accepted

---
 src/configfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/configfile.c b/src/configfile.c
index 73c6534..d891c27 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -536,11 +536,10 @@ config_parse_uint(const char* s, unsigned long* val)
         }
     }
 
-    uint64_t z = v * mult;
-    if (z < v)
+    if (v > UINT64_MAX / mult)
         return -EOVERFLOW;
 
-    *val = z;
+    *val = v * mult;
     return 0;
 }
 
-- 
2.43.0


From 20cad086df3b066a9207526342dd16c1a0bc8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 171/178] fix: configuration values that are no numbers are
 accepted as zero

---
 src/configfile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/configfile.c b/src/configfile.c
index d891c27..526402a 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -19,6 +19,7 @@
 #include <string.h>
 #include <assert.h>
 #include <errno.h>
+#include <ctype.h>
 
 #include "utils/gstring.h"
 #include "fast/list.h"
@@ -462,6 +463,9 @@ config_parse_int(const char* s, long* val)
     if (errno != 0)
         return -errno;
 
+    if (e == s || (*e && !isspace((unsigned char)*e)))
+        return -EINVAL;
+
     *val = z;
     return 0;
 }
@@ -497,6 +501,9 @@ config_parse_uint(const char* s, unsigned long* val)
     if (errno != 0)
         return -errno;
 
+    if (endptr == s)
+        return -EINVAL;
+
     if ( endptr && *endptr )
     {
         switch (*endptr)
-- 
2.43.0


From d85814c8ecb8528eb501718f2a72d391d798df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:56 +0000
Subject: [PATCH 172/178] fix: config_get_entry does not find absolute paths

---
 src/configfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index 526402a..8d9ed82 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -447,7 +447,7 @@ config_section_get_entry(node* start, const char* path)
 const char*
 config_get_entry(configfile* cf, const char* path)
 {
-    return find_leaf(cf->root, path);
+    return config_section_get_entry(cf->root, path);
 }
 
 
-- 
2.43.0


From 6a0b4895be40142534c6ce9b81a50ce3dcf1b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 173/178] fix: fletcher32 does not compile: size_t is not
 declared

---
 src/fletcher-cksum.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fletcher-cksum.c b/src/fletcher-cksum.c
index 36a74ae..c5837d4 100644
--- a/src/fletcher-cksum.c
+++ b/src/fletcher-cksum.c
@@ -13,6 +13,7 @@
  * warranty; it is provided "as is". No claim  is made to its
  * suitability for any purpose.
  */
+#include <stddef.h>
 #include <stdint.h>
 
 uint32_t
-- 
2.43.0


From 6d80e81f8656c78a2664bbaeae8944abef59244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 174/178] fix: daemonize leaks descriptors and ignores that
 /dev/null cannot be opened

---
 src/daemon.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..98222a6 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -52,13 +52,15 @@ daemonize(const char* pwd)
     chdir(pwd);
     umask(022);
 
-    int fd0 = open("/dev/null", O_RDONLY);
-    int fd1 = open("/dev/null", O_WRONLY);
-    int fd2 = open("/dev/null", O_WRONLY);
+    int fd = open("/dev/null", O_RDWR);
+    if (fd < 0)
+        return -geterrno();
 
-    dup2(fd0, 0);
-    dup2(fd1, 1);
-    dup2(fd2, 2);
+    dup2(fd, 0);
+    dup2(fd, 1);
+    dup2(fd, 2);
+    if (fd > 2)
+        close(fd);
 
     return 0;
 }
-- 
2.43.0


From 751bc13c6dae953e1abf9522c103df707a516390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:35 +0000
Subject: [PATCH 175/178] fix: daemonize ignores that it could not change
 directories

---
 src/daemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 98222a6..3222c95 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -49,7 +49,9 @@ daemonize(const char* pwd)
     if (!pwd)
         pwd = "/tmp";
 
-    chdir(pwd);
+    if (chdir(pwd) < 0)
+        return -geterrno();
+
     umask(022);
 
     int fd = open("/dev/null", O_RDWR);
-- 
2.43.0


From 2cdf50fb7ce2ef05b9283d5f4af683ef551d595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 176/178] fix: daemonize runs exit handlers and writes buffered
 output once for every process it leaves behind

---
 src/daemon.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 3222c95..7a9f93c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -22,6 +22,7 @@
 
 #include <fcntl.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
@@ -31,19 +32,23 @@
 int
 daemonize(const char* pwd)
 {
+    // Nothing buffered may be written again by the copies made here. And
+    // exit handlers are run once: when the daemon exits.
+    fflush(0);
+
     pid_t pid = fork();
 
     if (pid < 0)
         return -geterrno();
     else if (pid > 0)
-        exit(0);      // parent
+        _exit(0);      // parent
 
     setsid();
     pid = fork();
     if (pid < 0)
         return -geterrno();
     else if (pid > 0)
-        exit(0);
+        _exit(0);
 
     // this is now the grandkid of the original process
     if (!pwd)
-- 
2.43.0


From 97a68e9b98674782ffb30ff27bfe85105560bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:10 +0000
Subject: [PATCH 177/178] fix: a small hash table never grew: its fill was
 computed for one bucket more than it has

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index f4af2f7..c8afed2 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -458,7 +458,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
     if (b->count == 1) {
         ++tab->stats.fill;
-        if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
+        if ( ((tab->stats.fill * 100) / tab->size) > tab->fillmax )
             grow = 1;
     }
 
-- 
2.43.0


From c6e0dc80c744cd2df8acf11579975b9629dc046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:04 +0000
Subject: [PATCH 178/178] fix: gstr_readline left its string without a
 terminator when it ran out of memory

---
 src/gstring.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 01332b5..4a70b9d 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -422,8 +422,12 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         if (len + 1 >= g->cap) {
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
-            if (!str)
+            if (!str) {
+                // keep what was read, as a string
+                g->str[len] = 0;
+                g->len      = len;
                 return -ENOMEM;
+            }
 
             g->str = str;
             g->cap = newcap;
-- 
2.43.0

