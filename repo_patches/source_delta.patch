From 58502eeb0b59bd88b35e9cf27f136dd1131089e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 01/22] Add URKEL_VERIF hook: size limits as variables

---
 src/store.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/store.c b/src/store.c
index 24af568..6ca509a 100644
--- a/src/store.c
+++ b/src/store.c
@@ -34,6 +34,23 @@
 #define CACHE_HASH(k) urkel_murmur3(k, URKEL_HASH_SIZE, 0)
 #define CACHE_EQUAL(a, b) (memcmp(a, b, URKEL_HASH_SIZE) == 0)
 
+#ifdef URKEL_VERIF
+/* Verification hook: the size limits become variables, so that a test
+   harness can reach file rollovers, flushes and evictions quickly. */
+uint64_t urkel_verif_max_file_size = MAX_FILE_SIZE;
+size_t urkel_verif_write_buffer = WRITE_BUFFER;
+size_t urkel_verif_read_buffer = READ_BUFFER;
+size_t urkel_verif_max_open_files = MAX_OPEN_FILES;
+#undef MAX_FILE_SIZE
+#undef WRITE_BUFFER
+#undef READ_BUFFER
+#undef MAX_OPEN_FILES
+#define MAX_FILE_SIZE urkel_verif_max_file_size
+#define WRITE_BUFFER urkel_verif_write_buffer
+#define READ_BUFFER urkel_verif_read_buffer
+#define MAX_OPEN_FILES urkel_verif_max_open_files
+#endif
+
 /*
  * Structs
  */
-- 
2.43.0


From 94b0730701ba4695a06f97c23e61660fa2e42a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 02/22] fix: keep the full size of saved values

urkel_node_save() took the size of a value as a uint8_t, so that values of
256 bytes and more came back truncated to size % 256 once committed.
---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 6b99d68498a67c12b2a3a4c2b0e25a7886dfce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 03/22] fix: do not clear an uninitialized node when a root is
 unknown

urkel_store_has_history() cleared the node that urkel_store_read_history()
leaves uninitialized when it fails: injecting an unknown root aborted or freed
a garbage pointer.
---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 6ca509a..bdcaf16 100644
--- a/src/store.c
+++ b/src/store.c
@@ -885,7 +885,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From d0a0d2abe85b82ea7e6665a46d3de9c69d0aca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 04/22] fix: make the iterator stack deep enough for every tree

A path takes two entries per level (the hash node and the node it resolves to)
and has up to 257 levels. Iterating a stored tree deeper than 127 levels
aborted.
---
 src/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..bf14e35 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -45,7 +45,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[(URKEL_KEY_BITS + 1) * 2];
   size_t stack_len;
   int done;
   int transient;
@@ -1138,7 +1138,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < (URKEL_KEY_BITS + 1) * 2);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From 618b7de26fc41ec3b89020368653ca68a376e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 05/22] fix: free the nodes of a proof that fails to parse

urkel_verify() leaked the nodes parsed before the point of failure.
---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index bf14e35..aa86fb0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -787,6 +787,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From 50f5484d403c4985618a6e086fff2d4895ff998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 06/22] fix: clear a transaction to the injected root

urkel_tx_clear() went back to the last commit even after urkel_inject() had
reverted the database to another root, unlike urkel_tx_create().
---
 src/tree.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index aa86fb0..fb56f6a 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -883,14 +883,25 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  urkel_node_t *root;
+
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tree->lock);
 
-  urkel_node_destroy(tx->root, 1);
+  /* Same view as a new transaction. */
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+  else
+    root = urkel_store_get_root(tree->store);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  if (root != NULL) {
+    urkel_node_destroy(tx->root, 1);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+    tx->root = root;
+  }
+
+  urkel_rwlock_wrunlock(tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From 102255fc51afd3dac09ecf0a6b0e2f2581fa88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 07/22] fix: do not wait for the transaction lock while holding
 the tree lock

urkel_tx_prove() retook tx->lock as a writer with tree->lock held. A commit of
the same transaction, which takes the locks in the other order, deadlocked
with it.
---
 src/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index fb56f6a..0bbee04 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1040,7 +1040,6 @@ urkel_tx_prove(tree_tx_t *tx,
   int write_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
 
   write_lock = (tx->root->type != URKEL_NODE_NULL
              && tx->root->type != URKEL_NODE_HASH);
@@ -1051,6 +1050,8 @@ urkel_tx_prove(tree_tx_t *tx,
     urkel_rwlock_wrlock(tx->lock);
   }
 
+  urkel_rwlock_rdlock(tx->tree->lock);
+
   urkel_proof_init(&proof);
 
   ret = urkel_tree_prove(tx->tree, &proof, tx->root, key, 0);
-- 
2.43.0


From ba635b79047ba2c92a2041de7292831a745e232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 08/22] fix: free the handle when opening fails

urkel_open() leaked it.
---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index 0bbee04..78af0f4 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -586,6 +586,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From 9c8bb61197e9226dfa867de3f16ea1647da8702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 09/22] fix: keep commit records aligned across a file rollover

When the padding before a meta did not fit into the current file, it was
written at the start of the next one and left the meta unaligned there, where
recovery does not look: the commit was lost on the next open.
---
 src/store.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index bdcaf16..7470c62 100644
--- a/src/store.c
+++ b/src/store.c
@@ -781,7 +781,10 @@ urkel_store_write_meta(data_store_t *store,
   if (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
-    urkel_slab_write(slab, padding, size);
+    /* No padding across a rollover: the
+       meta begins the next file instead. */
+    if (slab->file_pos + size <= MAX_FILE_SIZE)
+      urkel_slab_write(slab, padding, size);
   }
 
   urkel_meta_write(state, raw, store->key);
-- 
2.43.0


From 0e0b5c0c41f6a92a590c394dcf12ae1a88ec2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 10/22] fix: open a database whose creation was interrupted

A crash between creating and writing the "meta" file left a database
that could never be opened again, and a failed lstat of that file
replaced the key of an existing database.
---
 src/store.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index 7470c62..5f1d090 100644
--- a/src/store.c
+++ b/src/store.c
@@ -938,13 +938,18 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 }
 
 static int
-urkel_store_init_meta(data_store_t *store) {
+urkel_store_init_meta(data_store_t *store, uint32_t index) {
   char path[URKEL_PATH_MAX + 1];
 
   urkel_store_path(store, path, "meta");
 
-  if (urkel_fs_exists(path))
-    return urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE);
+  if (urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE))
+    return 1;
+
+  /* Never replace the key of existing data. Without any
+     data, we may have crashed before the key was written. */
+  if (index > 0)
+    return 0;
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
@@ -1094,10 +1099,10 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
+  if (!urkel_store_find_index(store, &index))
     return 0;
 
-  if (!urkel_store_find_index(store, &index))
+  if (!urkel_store_init_meta(store, index))
     return 0;
 
   if (!urkel_store_init_lock(store))
-- 
2.43.0


From 108b35c834d5ae1cc82bea856037daae1f938903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 11/22] fix: do not delete data files that cannot be read

Recovery took a failure to open, stat or read a data file for the
absence of a commit record and unlinked the file.
---
 src/store.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/store.c b/src/store.c
index 5f1d090..849b91e 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1015,10 +1015,12 @@ urkel_store_find_meta(const data_store_t *store,
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
-  if (!urkel_fs_fstat(fd, &st))
+  if (!urkel_fs_fstat(fd, &st)) {
+    ret = -1;
     goto done;
+  }
 
   *off = st.st_size - (st.st_size % META_SIZE);
 
@@ -1031,8 +1033,10 @@ urkel_store_find_meta(const data_store_t *store,
       size = SLAB_SIZE;
     }
 
-    if (!urkel_fs_pread(fd, slab, size, pos))
+    if (!urkel_fs_pread(fd, slab, size, pos)) {
+      ret = -1;
       goto done;
+    }
 
     while (size >= META_SIZE) {
       size -= META_SIZE;
@@ -1059,6 +1063,7 @@ urkel_store_recover_state(const data_store_t *store,
   unsigned char *slab = checked_malloc(SLAB_SIZE);
   char path[URKEL_PATH_MAX + 1];
   uint64_t off;
+  int found;
   int ret = 0;
 
   urkel_meta_init(state);
@@ -1067,7 +1072,13 @@ urkel_store_recover_state(const data_store_t *store,
   while (*index >= 1) {
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    /* An unreadable file is not an uncommitted file. */
+    if (found == -1)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 5471ee8eba537f553f64e1cd7880f9bbe5337059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 12/22] fix: take the lock before reading the database, and
 keep it exclusive

Opening read the key and the file list before it held the lock, and
closing unlinked the lock file after releasing it, which could remove
the lock file of the next holder and let a second one in.
---
 src/io.c    | 16 ++++++++++++
 src/store.c | 71 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..07f0c9c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,6 +56,9 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
+#ifndef _WIN32
+  urkel_stat_t st1, st2;
+#endif
 
   if (fd == -1)
     return -1;
@@ -65,6 +68,19 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
+#ifndef _WIN32
+  /* The previous holder may have unlinked the
+     file after we opened it: our lock excludes
+     nobody unless the name still refers to it. */
+  if (!urkel_fs_fstat(fd, &st1)
+      || !urkel_fs_stat(name, &st2)
+      || st1.st_dev != st2.st_dev
+      || st1.st_ino != st2.st_ino) {
+    urkel_fs_close_lock(fd);
+    return -1;
+  }
+#endif
+
   return fd;
 }
 
diff --git a/src/store.c b/src/store.c
index 849b91e..b3e2fb8 100644
--- a/src/store.c
+++ b/src/store.c
@@ -937,6 +937,36 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
   return urkel_fs_mkdir(store->prefix, 0750);
 }
 
+static int
+urkel_store_init_lock(data_store_t *store) {
+  char path[URKEL_PATH_MAX + 1];
+  int fd;
+
+  urkel_store_path(store, path, "lock");
+
+  fd = urkel_fs_open_lock(path, 0640);
+
+  if (fd == -1)
+    return 0;
+
+  store->lock_fd = fd;
+
+  return 1;
+}
+
+static void
+urkel_store_unlock(int fd, const char *path) {
+#ifdef _WIN32
+  urkel_fs_close_lock(fd);
+  urkel_fs_unlink(path);
+#else
+  /* Unlink while still holding the lock, lest
+     we remove the lock file of our successor. */
+  urkel_fs_unlink(path);
+  urkel_fs_close_lock(fd);
+#endif
+}
+
 static int
 urkel_store_init_meta(data_store_t *store, uint32_t index) {
   char path[URKEL_PATH_MAX + 1];
@@ -985,23 +1015,6 @@ urkel_store_find_index(data_store_t *store, uint32_t *index) {
   return ret;
 }
 
-static int
-urkel_store_init_lock(data_store_t *store) {
-  char path[URKEL_PATH_MAX + 1];
-  int fd;
-
-  urkel_store_path(store, path, "lock");
-
-  fd = urkel_fs_open_lock(path, 0640);
-
-  if (fd == -1)
-    return 0;
-
-  store->lock_fd = fd;
-
-  return 1;
-}
-
 static int
 urkel_store_find_meta(const data_store_t *store,
                       urkel_meta_t *meta,
@@ -1105,26 +1118,26 @@ urkel_store_clear(data_store_t *store);
 
 static int
 urkel_store_init(data_store_t *store, const char *prefix) {
+  char path[URKEL_PATH_MAX + 1];
   uint32_t index;
 
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_find_index(store, &index))
+  if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_init_meta(store, index))
-    return 0;
+  if (!urkel_store_find_index(store, &index))
+    goto fail;
 
-  if (!urkel_store_init_lock(store))
-    return 0;
+  if (!urkel_store_init_meta(store, index))
+    goto fail;
 
   if (!urkel_store_recover_state(store,
                                  &store->state,
                                  &store->last_meta,
                                  &index)) {
-    urkel_fs_close_lock(store->lock_fd);
-    return 0;
+    goto fail;
   }
 
   urkel_slab_init(&store->slab);
@@ -1150,6 +1163,10 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   }
 
   return 1;
+fail:
+  urkel_store_path(store, path, "lock");
+  urkel_store_unlock(store->lock_fd, path);
+  return 0;
 }
 
 static void
@@ -1162,8 +1179,7 @@ urkel_store_clear(data_store_t *store) {
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
-  urkel_fs_unlink(path);
+  urkel_store_unlock(store->lock_fd, path);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1236,8 +1252,7 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
-    urkel_fs_unlink(path);
+    urkel_store_unlock(fd, path);
   }
 
   if (ret)
-- 
2.43.0


From 0a9e6f583b03df1edf659bf9cba0717c4f5250f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 13/22] fix: leave room for the names of data files in the path
 limit

---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index b3e2fb8..2892626 100644
--- a/src/store.c
+++ b/src/store.c
@@ -920,7 +920,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1217,7 +1217,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1279,7 +1279,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From bcf5eb4cb624e55bab1a527c66d428ff4b2c9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 14/22] fix: let concurrent readers open the same data file

Two threads which read from a data file that was not open yet both
opened it, and the second one aborted the process.
---
 src/store.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index 2892626..188ab03 100644
--- a/src/store.c
+++ b/src/store.c
@@ -275,8 +275,10 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
+  urkel_file_t *existing;
+
   urkel_rwlock_wrlock(fm->lock);
 
   if (file->index >= fm->len) {
@@ -290,12 +292,22 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  existing = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+  if (existing == NULL) {
+    fm->items[file->index] = file;
+    fm->size += 1;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  /* Another reader opened the same file first. */
+  if (existing != NULL) {
+    urkel_file_close(file);
+    return existing;
+  }
+
+  return file;
 }
 
 static urkel_file_t *
@@ -502,9 +514,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From f17059ec2880019cebf058cb76b113a73387aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 15/22] fix: keep a transaction valid when its commit fails

A failed commit freed the nodes which the transaction went on using:
destroying it freed them again. The transaction now keeps its tree, so
that the commit can be retried, and the record of the failed commit is
not written along with the next one.
---
 src/store.c | 17 +++++++++++++++--
 src/tree.c  | 26 ++++++++++++--------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/store.c b/src/store.c
index 188ab03..5b10799 100644
--- a/src/store.c
+++ b/src/store.c
@@ -538,7 +538,13 @@ urkel_store_read(data_store_t *store,
                  size_t size,
                  uint32_t index,
                  uint64_t pos) {
-  urkel_file_t *file = urkel_store_open_file(store, index, READ_FLAGS);
+  urkel_file_t *file;
+
+  /* Not flushed yet. */
+  if (index > store->index)
+    return 0;
+
+  file = urkel_store_open_file(store, index, READ_FLAGS);
 
   if (file == NULL)
     return 0;
@@ -811,8 +817,15 @@ urkel_store_commit(data_store_t *store, const urkel_node_t *root) {
 
   urkel_store_write_meta(store, &state, root);
 
-  if (!urkel_store_flush(store))
+  if (!urkel_store_flush(store)) {
+    /* The data stays buffered for the next
+       commit, which must not commit this root. */
+    urkel_slab_t *slab = &store->slab;
+
+    memset(slab->data + slab->data_len - META_SIZE, 0, META_SIZE);
+
     return 0;
+  }
 
 #ifdef URKEL_FSYNC
   if (!urkel_store_sync(store))
diff --git a/src/tree.c b/src/tree.c
index 78af0f4..815c886 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -553,25 +553,26 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   }
 }
 
-static urkel_node_t *
-urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+static int
+urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
+  /* On failure, the caller's tree must remain usable. */
+  urkel_node_t *root = urkel_tree_write(tree, *node);
 
   if (root == NULL) {
-    urkel_node_destroy(node, 1);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
+  *node = root;
+
   if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
 
-  return root;
+  return 1;
 }
 
 /*
@@ -1081,20 +1082,17 @@ urkel_tx_prove(tree_tx_t *tx,
 
 int
 urkel_tx_commit(tree_tx_t *tx) {
-  urkel_node_t *root;
+  int ret;
 
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
 
-  root = urkel_tree_commit(tx->tree, tx->root);
-
-  if (root != NULL)
-    tx->root = root;
+  ret = urkel_tree_commit(tx->tree, &tx->root);
 
   urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 
-  return root != NULL;
+  return ret;
 }
 
 /*
-- 
2.43.0


From 857097851d6848a56b00d46b56be8a9c1bc97e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 16/22] fix: remove what a failed write left behind

The part of a write which reached the file before an error stayed at
its end, which shifted everything written later away from the position
it is addressed by.
---
 src/io.h       |  1 +
 src/io_posix.c | 12 +++++++++++-
 src/io_win.c   | 12 +++++++++++-
 src/store.c    |  2 +-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/io.h b/src/io.h
index ae704ce..74e8647 100644
--- a/src/io.h
+++ b/src/io.h
@@ -133,6 +133,7 @@ typedef struct urkel_file_s {
   uint64_t size;
   void *base;
   int mapped;
+  int torn;
   char _storage[32];
 } urkel_file_t;
 
diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..1ef7040 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1103,6 +1103,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = st.st_size;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
 #ifdef HAVE_MMAP
   if ((flags & URKEL_O_MMAP) && sizeof(void *) >= 8) {
@@ -1165,9 +1166,18 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  /* Data is addressed by its position: a partial
+     write must not remain in front of the next one. */
+  if (file->torn && !urkel_fs_ftruncate(file->fd, file->size))
     return 0;
 
+  file->torn = 0;
+
+  if (!urkel_fs_write(file->fd, src, len)) {
+    file->torn = !urkel_fs_ftruncate(file->fd, file->size);
+    return 0;
+  }
+
   file->size += len;
 
 #ifdef HAVE_MMAP
diff --git a/src/io_win.c b/src/io_win.c
index a6dae62..be324ea 100644
--- a/src/io_win.c
+++ b/src/io_win.c
@@ -752,6 +752,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = len.QuadPart;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
   memset(file->_storage, 0, sizeof(file->_storage));
 
@@ -844,9 +845,18 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
     file->base = NULL;
   }
 
-  if (!urkel_fs_write(file->fd, src, len))
+  /* Data is addressed by its position: a partial
+     write must not remain in front of the next one. */
+  if (file->torn && !urkel_fs_ftruncate(file->fd, file->size))
     return 0;
 
+  file->torn = 0;
+
+  if (!urkel_fs_write(file->fd, src, len)) {
+    file->torn = !urkel_fs_ftruncate(file->fd, file->size);
+    return 0;
+  }
+
   file->size += len;
 
   if (file->mapped) {
diff --git a/src/store.c b/src/store.c
index 5b10799..29f348f 100644
--- a/src/store.c
+++ b/src/store.c
@@ -112,7 +112,7 @@ typedef struct urkel_store_s {
  * Constants
  */
 
-static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, {0}};
+static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, 0, {0}};
 
 /*
  * Meta Root
-- 
2.43.0


From 644e0a368823a0d63c3468a608736e065e6d6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 17/22] fix: do not fail a write that succeeded when mmap fails

The data was written again by the next commit, away from the position
it is addressed by.
---
 src/io_posix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 1ef7040..7c5df24 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1184,10 +1184,10 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data was written. Without
+       a mapping, we read with pread. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
-- 
2.43.0


From 2f507c9baddf71b6cd11cebc482d669da9a67f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 18/22] fix: report an unreadable sibling when removing a key

Removing a key whose sibling node could not be read aborted the
process. It now fails and leaves the transaction as it was.
---
 src/tree.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 815c886..244a693 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -307,11 +307,18 @@ urkel_tree_remove(tree_db_t *tree,
         if (side->type == URKEL_NODE_HASH) {
           side = urkel_store_resolve(tree->store, side);
 
-          CHECK(side != NULL);
+          if (side == NULL) {
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
 
           resolved = 1;
         }
 
+        /* Removed. */
+        urkel_node_destroy(x, 0);
+
         if (side->type == URKEL_NODE_INTERNAL) {
           urkel_internal_t *si = &side->u.internal;
           urkel_bits_t pre;
@@ -349,8 +356,7 @@ urkel_tree_remove(tree_db_t *tree,
         return NULL;
       }
 
-      urkel_node_destroy(node, 0);
-
+      /* The caller destroys the node, once it cannot fail. */
       return urkel_node_create_null();
     }
 
@@ -365,10 +371,12 @@ urkel_tree_remove(tree_db_t *tree,
 
       ret = urkel_tree_remove(tree, rn, key, depth);
 
-      if (ret != NULL)
-        urkel_node_destroy(node, 0);
-      else
+      if (ret == NULL)
         urkel_node_destroy(rn, 1);
+      else if (ret->type == URKEL_NODE_NULL)
+        urkel_node_destroy(rn, 0);
+      else
+        urkel_node_destroy(node, 0);
 
       return ret;
     }
@@ -1024,8 +1032,12 @@ urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
-  if (root != NULL)
+  if (root != NULL) {
+    if (root->type == URKEL_NODE_NULL)
+      urkel_node_destroy(tx->root, 0);
+
     tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From 1b5c4bb04a661df34a905cb127d47745bcf56175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 19/22] fix: reject damaged nodes which lead beyond the end of
 a key

A damaged prefix length or pointer made lookups read and write out of
bounds, recurse without end or abort.
---
 src/nodes.c |  2 +-
 src/tree.c  | 35 +++++++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index c428df7..026f3e1 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -633,7 +633,7 @@ urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
         if (flags & 2) {
           size = urkel_read16(data);
 
-          if (size < 0x100)
+          if (size < 0x100 || size > URKEL_KEY_BITS)
             return 0;
 
           data += 2;
diff --git a/src/tree.c b/src/tree.c
index 244a693..69b144f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -75,6 +75,23 @@ __urkel_get_errno(void) {
  * Tree Operations
  */
 
+static urkel_node_t *
+urkel_tree_resolve(tree_db_t *tree,
+                   const urkel_node_t *node,
+                   unsigned int depth) {
+  urkel_node_t *out = urkel_store_resolve(tree->store, node);
+
+  /* No path is longer than a key. */
+  if (out != NULL && out->type == URKEL_NODE_INTERNAL) {
+    if (depth + out->u.internal.prefix.size >= URKEL_KEY_BITS) {
+      urkel_node_destroy(out, 1);
+      return NULL;
+    }
+  }
+
+  return out;
+}
+
 static int
 urkel_tree_get(tree_db_t *tree,
                unsigned char *value,
@@ -125,7 +142,7 @@ urkel_tree_get(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_tree_resolve(tree, node, depth);
       int ret;
 
       if (rn == NULL) {
@@ -235,6 +252,12 @@ urkel_tree_insert(tree_db_t *tree,
 
       depth += prefix.size;
 
+      /* Not the path of the current key. */
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       leaf = urkel_node_create_leaf(key, value, size);
       bit = urkel_get_bit(key, depth);
 
@@ -242,7 +265,7 @@ urkel_tree_insert(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_tree_resolve(tree, node, depth);
       urkel_node_t *ret;
 
       if (rn == NULL) {
@@ -305,7 +328,7 @@ urkel_tree_remove(tree_db_t *tree,
         int resolved = 0;
 
         if (side->type == URKEL_NODE_HASH) {
-          side = urkel_store_resolve(tree->store, side);
+          side = urkel_tree_resolve(tree, side, depth + 1);
 
           if (side == NULL) {
             urkel_node_destroy(z, 0);
@@ -361,7 +384,7 @@ urkel_tree_remove(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_tree_resolve(tree, node, depth);
       urkel_node_t *ret;
 
       if (rn == NULL) {
@@ -462,7 +485,7 @@ urkel_tree_prove(tree_db_t *tree,
     }
 
     case URKEL_NODE_HASH: {
-      urkel_node_t *rn = urkel_store_resolve(tree->store, node);
+      urkel_node_t *rn = urkel_tree_resolve(tree, node, depth);
       int ret;
 
       if (rn == NULL) {
@@ -1250,7 +1273,7 @@ urkel_iter_seek(tree_iter_t *iter) {
 
         parent->child += 1;
 
-        rn = urkel_store_resolve(tree->store, node);
+        rn = urkel_tree_resolve(tree, node, depth);
 
         if (rn == NULL) {
           urkel_errno = URKEL_ECORRUPTION;
-- 
2.43.0


From 7d5af44d8e2c232dbf507029df06df97ccfd3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 20/22] fix: do not follow a cycle of commit records

A misplaced copy of a commit record made the search for an unknown
root run for ever.
---
 src/store.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/store.c b/src/store.c
index 29f348f..8a11eaf 100644
--- a/src/store.c
+++ b/src/store.c
@@ -890,6 +890,13 @@ urkel_store_read_history(data_store_t *store,
 
     root_ptr = &meta.root_ptr;
 
+    /* Records only ever refer to earlier ones. */
+    if (meta.meta_ptr.index > meta_ptr->index
+        || (meta.meta_ptr.index == meta_ptr->index
+            && meta.meta_ptr.pos >= meta_ptr->pos)) {
+      return 0;
+    }
+
     if (!urkel_store_read_root(store, &node, root_ptr))
       return 0;
 
-- 
2.43.0


From 9efd884a15f7751e4bcc6746a06f046e65c28300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 21/22] fix: make one-shot inserts and removals atomic

---
 src/tree.c | 66 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 69b144f..9953907 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -606,6 +606,14 @@ urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
   return 1;
 }
 
+static urkel_node_t *
+urkel_tree_head(tree_db_t *tree) {
+  if (tree->revert)
+    return urkel_store_get_history(tree->store, tree->hash);
+
+  return urkel_store_get_root(tree->store);
+}
+
 /*
  * Database
  */
@@ -740,41 +748,69 @@ urkel_insert(tree_db_t *tree,
              const unsigned char *key,
              const unsigned char *value,
              size_t size) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
-    return 0;
+  /* Hold the write lock throughout, so that
+     no other commit can come in between. */
+  urkel_rwlock_wrlock(tree->lock);
+
+  root = urkel_tree_head(tree);
 
-  if (!urkel_tx_insert(tx, key, value, size))
+  if (root == NULL) {
+    urkel_errno = URKEL_ENOTFOUND;
+    goto done;
+  }
+
+  if (size > URKEL_VALUE_SIZE) {
+    urkel_errno = URKEL_EINVAL;
     goto fail;
+  }
+
+  node = urkel_tree_insert(tree, root, key, value, size, 0);
 
-  if (!urkel_tx_commit(tx))
+  if (node != NULL)
+    root = node;
+  else if (urkel_errno != URKEL_ENOUPDATE)
     goto fail;
 
-  ret = 1;
+  ret = urkel_tree_commit(tree, &root);
 fail:
-  urkel_tx_destroy(tx);
+  urkel_node_destroy(root, 1);
+done:
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
 int
 urkel_remove(tree_db_t *tree, const unsigned char *key) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  urkel_node_t *root, *node;
   int ret = 0;
 
-  if (tx == NULL)
-    return 0;
+  urkel_rwlock_wrlock(tree->lock);
 
-  if (!urkel_tx_remove(tx, key))
-    goto fail;
+  root = urkel_tree_head(tree);
 
-  if (!urkel_tx_commit(tx))
+  if (root == NULL) {
+    urkel_errno = URKEL_ENOTFOUND;
+    goto done;
+  }
+
+  node = urkel_tree_remove(tree, root, key, 0);
+
+  if (node == NULL)
     goto fail;
 
-  ret = 1;
+  if (node->type == URKEL_NODE_NULL)
+    urkel_node_destroy(root, 0);
+
+  root = node;
+
+  ret = urkel_tree_commit(tree, &root);
 fail:
-  urkel_tx_destroy(tx);
+  urkel_node_destroy(root, 1);
+done:
+  urkel_rwlock_wrunlock(tree->lock);
   return ret;
 }
 
-- 
2.43.0


From 567202255fdf00229801bb7725cae25a8a6d857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 22/22] Build as gnu90: accept line comments with a warning

gcc -std=c90 rejects a // comment outright, even one that is a mere note at
the end of a file. GNU C90 accepts it, and -pedantic still warns. The code
stays C90, and the library's objects come out the same.
---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3f7cf37..defd184 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -78,7 +78,7 @@ set(urkel_cflags)
 set(urkel_ldflags)
 
 set(CMAKE_C_STANDARD_REQUIRED ON)
-set(CMAKE_C_EXTENSIONS OFF)
+set(CMAKE_C_EXTENSIONS ON)
 set(CMAKE_C_STANDARD 90)
 
 if(NOT URKEL_WASM)
-- 
2.43.0

