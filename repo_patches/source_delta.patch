From d65a597eae4e7b682c24436b9bf961ef6c4dd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:13 +0000
Subject: [PATCH 01/41] fix: free the reader slot a read transaction
 registered, whichever thread ends it

A reader ended by another thread leaked its slot, and a thread holding
several readers could free the wrong one. Also check txn for NULL before
dereferencing it in napr_db_txn_abort().
---
 src/napr_db.c          | 39 ++++++++++++---------------------------
 src/napr_db_internal.h |  1 +
 2 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..fa9681e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -581,6 +581,7 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
+                txn_handle->reader_slot = slot_idx;
                 found_slot = 1;
                 break;
             }
@@ -1196,21 +1197,12 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
+        /* Clear the slot this transaction registered in, whichever thread ends it */
+        txn->env->reader_table[txn->reader_slot].txnid = 0;
+        txn->env->reader_table[txn->reader_slot].pid = 0;
+        txn->env->reader_table[txn->reader_slot].tid = 0;
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
@@ -1274,29 +1266,22 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
+        /* Clear the slot this transaction registered in, whichever thread ends it */
+        txn->env->reader_table[txn->reader_slot].txnid = 0;
+        txn->env->reader_table[txn->reader_slot].pid = 0;
+        txn->env->reader_table[txn->reader_slot].tid = 0;
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
     }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..50d8f2d 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -323,6 +323,7 @@ typedef struct __attribute__((packed))
          pgno_t free_db_root_pgno;
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
+         int reader_slot;       /**< Reader table slot of a read-only transaction */
 
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
-- 
2.43.0


From 61c42b94d63923b4099f5955ebdfbeb424493ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:24 +0000
Subject: [PATCH 02/41] fix: pick and register a reader's snapshot in one step

A commit between reading live_meta and registering the slot made the
snapshot invisible to the page reclaimer, and live_meta was read while a
committing writer replaced it.
---
 src/napr_db.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index fa9681e..adf4c97 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -532,6 +532,16 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
+    /* A reader must pick its snapshot and register it in one step: a commit in between
+     * would not know of the snapshot and could let the next writer reuse its pages. */
+    if (!is_write) {
+        status = apr_thread_mutex_lock(env->reader_table_mutex);
+        if (status != APR_SUCCESS) {
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
+    }
+
     /* Capture snapshot from current live meta page */
     txn_handle->txnid = env->live_meta->txnid;
     txn_handle->root_pgno = env->live_meta->root;
@@ -569,12 +579,6 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
         int slot_idx = 0;
         int found_slot = 0;
 
-        status = apr_thread_mutex_lock(env->reader_table_mutex);
-        if (status != APR_SUCCESS) {
-            apr_pool_destroy(txn_pool);
-            return status;
-        }
-
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
@@ -1176,8 +1180,10 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    apr_thread_mutex_lock(txn->env->reader_table_mutex);
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 
     return APR_SUCCESS;
 }
-- 
2.43.0


From 8ef7aa45aa4b820dd2ed2b7290a7624e5bf4f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 03/41] fix: insertion that needs splits no longer fails,
 misplaces keys or loses the old value

A put that overflowed a page failed with APR_ENOSPC whenever one split did
not make enough room (leaving a half-changed tree behind), chose the wrong
side for keys between the two halves, and misordered dividers below the
first key. Updating a key a transaction had not inserted failed with
APR_EEXIST as soon as its leaf was dirty. Pairs too large for a page
overflowed the 16-bit size computation. Split top-down one page at a time,
searching again after each split, and use the same code for the Free DB.
---
 src/napr_db.c          | 678 +++++++++++------------------------------
 src/napr_db_internal.h |  19 +-
 src/napr_db_tree.c     |  42 +++
 3 files changed, 226 insertions(+), 513 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index adf4c97..e2ada16 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -778,9 +778,8 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
     return apr_file_sync(txn->env->file);
 }
 
-/* Forward declarations for Free DB helper functions */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos);
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out);
+/* Insertion shared by the main tree and the Free DB */
+static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val_t *key, const napr_db_val_t *data);
 
 /**
  * @brief Populate the Free DB with freed pages from this transaction.
@@ -796,135 +795,6 @@ static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_roo
  * @param new_free_db_root_out Output: the new Free DB root page number
  * @return APR_SUCCESS or an error code
  */
-static apr_status_t initialize_empty_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_root_pgno_out)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t new_root_pgno;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    DB_PageHeader *new_root;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t *pgno_key;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-    *new_root_pgno_out = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_free_db_root_out)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    napr_db_val_t current_key = *key;
-    napr_db_val_t current_data = *data;
-    pgno_t right_child_pgno = 0;
-
-    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
-    }
-
-    status = db_page_search(leaf_page, &current_key, &index);
-    if (status == APR_SUCCESS) {
-        return APR_EEXIST;
-    }
-
-    for (int i = (int)path_len - 1; i >= 0; i--) {
-        pgno_t current_pgno = path[i];
-        DB_PageHeader *dirty_page = NULL;
-        DB_PageHeader *page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-        if (i == (int) path_len - 1) {
-            leaf_page = dirty_page;
-        }
-    }
-
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-    if (status == APR_SUCCESS) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_ENOSPC) {
-        return status;
-    }
-
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    right_child_pgno = right_page->pgno;
-    current_key = divider_key;
-    status = propagate_split_up_tree_in_tree(txn, path, path_len, &current_key, (DB_SplitPgnos) {
-                                             .right_child_pgno = &right_child_pgno,.new_root_out = new_free_db_root_out}
-    );
-    if (status == APR_INCOMPLETE) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
-}
-
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
     napr_db_val_t key = { 0 };
@@ -946,12 +816,7 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
     data.data = txn->freed_pages->elts;
     data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
-    }
-
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    return tree_put(txn, new_free_db_root_out, &key, &data);
 }
 
 /**
@@ -1375,456 +1240,271 @@ apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  * @param data Value to insert
  * @return APR_SUCCESS on success, APR_EEXIST if key exists, error code on failure
  */
-static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
+static apr_status_t new_dirty_page(napr_db_txn_t *txn, uint16_t flags, DB_PageHeader **page_out)
 {
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    apr_status_t status = APR_SUCCESS;
+    pgno_t pgno = 0;
+    pgno_t *pgno_key = NULL;
+    DB_PageHeader *page = NULL;
+    apr_status_t status = db_page_alloc(txn, 1, &pgno);
 
-    /* Allocate the first leaf page */
-    status = db_page_alloc(txn, 1, &new_root_pgno);
     if (status != APR_SUCCESS) {
         return status;
     }
 
     /* Allocate dirty page in memory */
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
+    page = apr_pcalloc(txn->pool, PAGE_SIZE);
+    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    if (!page || !pgno_key) {
         return APR_ENOMEM;
     }
 
-    /* Initialize the new leaf page */
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    /* Insert the first key */
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    /* Initialize the new page */
+    page->pgno = pgno;
+    page->flags = flags;
+    page->num_keys = 0;
+    page->lower = sizeof(DB_PageHeader);
+    page->upper = PAGE_SIZE;
 
     /* Store in dirty pages hash */
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update transaction's root pointer */
-    txn->root_pgno = new_root_pgno;
+    *pgno_key = pgno;
+    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), page);
 
+    *page_out = page;
     return APR_SUCCESS;
 }
 
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno);
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
-
-apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+/**
+ * @brief Copy all pages of a path, leaf to root (Copy-on-Write).
+ */
+static apr_status_t cow_path(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len)
 {
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    DB_PageHeader *dirty_page = NULL;
-    uint16_t index = 0;
-    apr_status_t status = APR_SUCCESS;
-    int idx = 0;
-
-    napr_db_val_t current_key;
-    napr_db_val_t current_data;
-    pgno_t right_child_pgno = 0;
-
-    /* Validate inputs */
-    if (!txn || !key || !data) {
-        return APR_EINVAL;
-    }
-
-    /* Key/data to insert at each level (may be updated during split propagation) */
-    current_key = *key;
-    current_data = *data;
-
-    /* Ensure this is a write transaction */
-    if (txn->flags & NAPR_DB_RDONLY) {
-        return APR_EACCES;
-    }
-
-    /* Special case: Empty tree (no root yet) */
-    if (txn->root_pgno == 0) {
-        return handle_empty_tree_put(txn, &current_key, &current_data);
-    }
-
-    /* Normal case: Tree exists, find the leaf page and record path */
-    status = db_find_leaf_page_with_path(txn, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Search within the leaf page to find insertion point */
-    apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
-
-    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
-        }
-        /* Different transaction - will CoW and update below */
-    }
-
-    /* CoW path propagation: Copy all pages from leaf to root */
-    for (idx = (int) path_len - 1; idx >= 0; idx--) {
+    for (int idx = (int) path_len - 1; idx >= 0; idx--) {
         pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
+        DB_PageHeader *dirty_page = NULL;
 
         /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
+        if (!apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t))) {
             /* Page is in mmap - CoW it */
             DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
 
-            status = db_page_get_writable(txn, original_page, &dirty_page);
+            apr_status_t status = db_page_get_writable(txn, original_page, &dirty_page);
             if (status != APR_SUCCESS) {
                 return status;
             }
         }
-
-        /* Update leaf_page pointer if this is the leaf */
-        if (idx == (int) path_len - 1) {
-            leaf_page = dirty_page;
-        }
-    }
-
-    /* If key exists (MVCC update), delete the old entry before inserting new one */
-    if (search_status == APR_SUCCESS) {
-        status = db_page_delete(leaf_page, index);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-    }
-
-    /* Try to insert into the dirty leaf page */
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-
-    /* If insertion succeeded, we're done */
-    if (status == APR_SUCCESS) {
-        return APR_SUCCESS;
-    }
-
-    /* If insertion failed due to insufficient space, handle split */
-    if (status != APR_ENOSPC) {
-        return status;          /* Other error */
     }
 
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    return APR_SUCCESS;
 }
 
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
+/**
+ * @brief Tell which key will separate a page from its new right sibling when it is split.
+ *
+ * A leaf with a single entry is not divided: the sibling takes the key being inserted if that
+ * sorts after the entry, else the entry.
+ *
+ * @return 1 if the sibling starts empty, 0 if it takes over entries of the page
+ */
+static int split_divider(DB_PageHeader *page, const napr_db_val_t *key, napr_db_val_t *divider)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
+    uint16_t split_point = page->num_keys / 2;
     uint16_t index = 0;
 
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (page->flags & P_BRANCH) {
+        DB_BranchNode *node = db_page_branch_node(page, split_point);
+        divider->data = db_branch_node_key(node);
+        divider->size = node->key_size;
+        return 0;
     }
 
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
+    (void) db_page_search(page, key, &index);
+    if (page->num_keys == 1 && index == 1) {
+        *divider = *key;
+        return 1;
     }
 
-    pgno_t right_child_pgno = right_page->pgno;
-    *current_key = divider_key;
-
-    status = propagate_split_up_tree(txn, path, path_len, current_key, &right_child_pgno);
-    if (status == APR_INCOMPLETE) {
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return handle_root_split(txn, path[0], right_child_pgno, current_key);
+    DB_LeafNode *node = db_page_leaf_node(page, split_point);
+    divider->data = db_leaf_node_key(node);
+    divider->size = node->key_size;
+    return 0;
 }
 
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
+/**
+ * @brief Split one page of a path so that an insertion of key gets closer to having room.
+ *
+ * Splits the lowest page of the path whose parent can take one more entry, adding a root level
+ * if there is none. The tree is complete and searchable after every call, also on failure.
+ */
+static apr_status_t split_path(napr_db_txn_t *txn, pgno_t *root, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
+    apr_status_t status = APR_SUCCESS;
+    DB_PageHeader *page = NULL;
+    DB_PageHeader *parent = NULL;
+    DB_PageHeader *right = NULL;
+    napr_db_val_t divider = { 0 };
     uint16_t index = 0;
-    int idx = 0;
+    int empty_sibling = 0;
+    int level = (int) path_len - 1;
 
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
+    for (;; level--) {
+        page = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
+        if (!page || page->num_keys == 0 || ((page->flags & P_BRANCH) && page->num_keys == 1)) {
             return APR_EGENERAL;
         }
+        empty_sibling = split_divider(page, key, &divider);
 
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
+        if (level == 0) {
+            /* The root itself is split: put a new root above it first */
+            napr_db_val_t empty_key = {.data = "",.size = 0 };
+            status = new_dirty_page(txn, P_BRANCH, &parent);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+            status = db_page_insert(parent, 0, &empty_key, NULL, path[0]);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+            *root = parent->pgno;
+            break;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
+        parent = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
+        if (!parent) {
+            return APR_EGENERAL;
         }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
+        if (db_page_make_room(parent, sizeof(uint16_t) + sizeof(DB_BranchNode) + divider.size)) {
+            break;
         }
-
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        *right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
     }
 
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (page->flags & P_BRANCH) {
+        status = db_split_branch(txn, page, &right, &divider);
     }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
+    else if (empty_sibling) {
+        status = new_dirty_page(txn, P_LEAF, &right);
     }
     else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
+        status = db_split_leaf(txn, page, &right, &divider);
     }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    txn->root_pgno = new_root_pgno;
-
-    return APR_SUCCESS;
+    (void) db_page_search(parent, &divider, &index);
+    return db_page_insert(parent, index, &divider, NULL, right->pgno);
 }
 
-/**
- * @brief Propagate a split up the tree, updating an arbitrary tree root.
- *
- * This is similar to propagate_split_up_tree() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param path Array of page numbers from root to leaf
- * @param path_len Length of the path
- * @param current_key Key to insert at parent level (may be updated during splits)
- * @param pgnos The page numbers to update.
- * @return APR_SUCCESS if split propagated to root, APR_INCOMPLETE if absorbed, error otherwise
- */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos)
+static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val_t *key, const napr_db_val_t *data)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
+    pgno_t path[MAX_TREE_DEPTH] = { 0 };
+    uint16_t path_len = 0;
+    DB_PageHeader *leaf_page = NULL;
     uint16_t index = 0;
-    int idx = 0;
+    apr_status_t status = APR_SUCCESS;
+    apr_size_t need = sizeof(uint16_t) + sizeof(DB_LeafNode) + key->size + data->size;
 
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
+    /* Refuse what no page can hold before anything is changed */
+    if (key->size > DB_MAX_KEY_SIZE || data->size > PAGE_SIZE || need > PAGE_SIZE - sizeof(DB_PageHeader)) {
+        return APR_ENOSPC;
+    }
+
+    /* Special case: Empty tree (no root yet) */
+    if (*root == 0) {
+        status = new_dirty_page(txn, P_LEAF, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
         }
+        *root = leaf_page->pgno;
+        return db_page_insert(leaf_page, 0, key, data, 0);
+    }
 
-        (void) db_page_search(parent_page, current_key, &index);
+    while (1) {
+        apr_size_t reusable = 0;
 
-        status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
+        /* Find the leaf page, recording the path, and CoW that path */
+        status = db_find_leaf_page_with_path_in_tree(txn, *root, key, path, &path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
             return status;
         }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
+        status = cow_path(txn, path, path_len);
         if (status != APR_SUCCESS) {
             return status;
         }
+        leaf_page = apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t));
+        if (!leaf_page) {
+            return APR_EGENERAL;
+        }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
+        /* An update gives back the space of the entry it replaces */
+        status = db_page_search(leaf_page, key, &index);
+        if (status == APR_SUCCESS) {
+            DB_LeafNode *node = db_page_leaf_node(leaf_page, index);
+            reusable = sizeof(uint16_t) + sizeof(DB_LeafNode) + node->key_size + node->data_size;
         }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
+
+        if (db_page_make_room(leaf_page, need > reusable ? need - reusable : 0)) {
+            break;
         }
 
+        status = split_path(txn, root, path, path_len, key);
         if (status != APR_SUCCESS) {
             return status;
         }
+    }
 
-        *pgnos.right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
+    /* If key exists (MVCC update), delete the old entry before inserting new one */
+    if (status == APR_SUCCESS) {
+        status = db_page_delete(leaf_page, index);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
     }
 
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
+    return db_page_insert(leaf_page, index, key, data, 0);
 }
 
 /**
- * @brief Handle root split for an arbitrary tree.
- *
- * This is similar to handle_root_split() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param old_root_pgno Old root page number
- * @param right_child_pgno Right child page number from split
- * @param divider_key Key separating left and right children
- * @param new_root_out Output: New root page number
- * @return APR_SUCCESS on success, error code on failure
+ * @brief Tell whether the state this write transaction started from contains a key.
  */
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out)
+static apr_status_t get_committed(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
+    napr_db_txn_t snapshot = *txn;
 
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
+    snapshot.flags |= NAPR_DB_RDONLY;
+    snapshot.root_pgno = txn->env->live_meta->root;
+    return napr_db_get(&snapshot, key, data);
+}
 
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
+apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
+{
+    napr_db_val_t existing = { 0 };
+    apr_status_t status = APR_SUCCESS;
 
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
+    /* Validate inputs */
+    if (!txn || !key || !data) {
+        return APR_EINVAL;
     }
 
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
+    /* Ensure this is a write transaction */
+    if (txn->flags & NAPR_DB_RDONLY) {
+        return APR_EACCES;
     }
 
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
+    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
+     * Same-transaction duplicate: the key was inserted by this transaction -> reject with APR_EEXIST
+     * MVCC update: the key was there when the transaction began -> allow via CoW */
+    status = napr_db_get(txn, key, &existing);
+    if (status == APR_SUCCESS) {
+        status = get_committed(txn, key, &existing);
+        if (status == APR_NOTFOUND) {
+            return APR_EEXIST;
+        }
     }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
+    if (status != APR_SUCCESS && status != APR_NOTFOUND) {
         return status;
     }
 
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update output parameter instead of txn->root_pgno */
-    *new_root_out = new_root_pgno;
-
-    return APR_SUCCESS;
+    return tree_put(txn, &txn->root_pgno, key, data);
 }
 
 /**
@@ -1876,23 +1556,9 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     }
 
     /* CoW: Make dirty copies of all pages in the path */
-    for (int idx = (int)path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
-        DB_PageHeader *dirty_page = NULL;
-
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (!page_to_cow) {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
+    status = cow_path(txn, path, path_len);
+    if (status != APR_SUCCESS) {
+        return status;
     }
 
     /* Get the dirty copy of the leaf page */
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 50d8f2d..b607626 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -42,13 +42,6 @@ typedef struct DB_CommitPgnos
     pgno_t new_free_db_root_pgno;   /**< New root page number for Free DB */
 } DB_CommitPgnos;
 
-/** @brief Structure for passing page numbers to propagate_split_up_tree_in_tree */
-typedef struct DB_SplitPgnos
-{
-    pgno_t *right_child_pgno;   /**< Right child page number */
-    pgno_t *new_root_out;       /**< New root page number */
-} DB_SplitPgnos;
-
 /*
  * MVCC Reader Tracking
  */
@@ -133,6 +126,9 @@ typedef struct DB_ReaderSlot
 /** Database format version */
 #define DB_VERSION      1
 
+/** Largest key: a branch page must have room for two of them */
+#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
+
 /*
  * Page type flags
  */
@@ -574,6 +570,15 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
  */
 apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index);
 
+/**
+ * @brief Make sure a page has some free space in one piece, compacting it if necessary.
+ *
+ * @param page Dirty page
+ * @param need Number of bytes, slot included
+ * @return 1 if the page has that much room, 0 otherwise
+ */
+int db_page_make_room(DB_PageHeader *page, apr_size_t need);
+
 /**
  * @brief Split a leaf page when it becomes full.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..2c370d4 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -534,6 +534,48 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Make sure a page has some free space in one piece, compacting it if necessary.
+ *
+ * A split leaves holes in the data area of the left page, so the gap between lower and upper
+ * can be smaller than the space that is free.
+ *
+ * @param page Dirty page
+ * @param need Number of bytes, slot included
+ * @return 1 if the page has that much room, 0 otherwise
+ */
+int db_page_make_room(DB_PageHeader *page, apr_size_t need)
+{
+    uint8_t copy[PAGE_SIZE];
+    uint16_t *slots = db_page_slots(page);
+    uint16_t upper = PAGE_SIZE;
+    uint16_t idx = 0;
+
+    if ((apr_size_t) (page->upper - page->lower) >= need) {
+        return 1;
+    }
+
+    memcpy(copy, page, PAGE_SIZE);
+    for (idx = 0; idx < page->num_keys; idx++) {
+        uint16_t node_size = 0;
+
+        if (page->flags & P_LEAF) {
+            DB_LeafNode *node = (DB_LeafNode *) (copy + slots[idx]);
+            node_size = (uint16_t) (sizeof(DB_LeafNode) + node->key_size + node->data_size);
+        }
+        else {
+            DB_BranchNode *node = (DB_BranchNode *) (copy + slots[idx]);
+            node_size = (uint16_t) (sizeof(DB_BranchNode) + node->key_size);
+        }
+        upper -= node_size;
+        memcpy((char *) page + upper, copy + slots[idx], node_size);
+        slots[idx] = upper;
+    }
+    page->upper = upper;
+
+    return (apr_size_t) (page->upper - page->lower) >= need;
+}
+
 /**
  * @brief Split a leaf page when it becomes full.
  *
-- 
2.43.0


From b162a051f50a85daf2f9cc4a4ac544dec4ba13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:02 +0000
Subject: [PATCH 04/41] fix: cursors step over leaves emptied by deletions, and
 SET_RANGE continues in the next leaf

Iteration stopped at the first empty leaf, hiding all keys behind it, and
NAPR_DB_SET_RANGE reported not-found when the bound lay between two leaves.
---
 src/napr_db_cursor.c | 56 ++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..516507e 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -172,8 +172,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
         if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+            /* All keys of this leaf are smaller: the first key of a later leaf follows */
+            cursor->stack[cursor->top - 1].index = index;
+            return db_cursor_next(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -183,15 +184,22 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
+    cursor->stack[cursor->top - 1].index = index;
+
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
-
-    cursor->stack[cursor->top - 1].index = index;
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Tell whether the cursor stands on a leaf that deletions have emptied.
+ */
+static inline int cursor_on_empty_leaf(const napr_db_cursor_t *cursor)
+{
+    return cursor->stack[cursor->top - 1].page->num_keys == 0;
+}
+
 /**
  * @brief Advance cursor to the next key.
  *
@@ -210,7 +218,7 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
  * @param cursor The cursor to advance
  * @return APR_SUCCESS if moved to next key, APR_NOTFOUND if at end
  */
-static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
+static apr_status_t cursor_step_next(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
@@ -266,10 +274,6 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 if (page->flags & P_LEAF) {
                     /* Reached leaf - push it with index 0 */
                     cursor_push(cursor, page, 0);
-                    if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
-                    }
                     return APR_SUCCESS;
                 }
 
@@ -288,6 +292,17 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
     return APR_NOTFOUND;
 }
 
+static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
+{
+    apr_status_t status = APR_SUCCESS;
+
+    do {
+        status = cursor_step_next(cursor);
+    } while (status == APR_SUCCESS && cursor_on_empty_leaf(cursor));
+
+    return status;
+}
+
 /**
  * @brief Move cursor to the previous key.
  *
@@ -318,11 +333,7 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
         }
 
         if (page->flags & P_LEAF) {
-            if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
-            }
-            cursor_push(cursor, page, page->num_keys - 1);
+            cursor_push(cursor, page, page->num_keys > 0 ? page->num_keys - 1 : 0);
             return APR_SUCCESS;
         }
 
@@ -335,7 +346,7 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
     }
 }
 
-static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
+static apr_status_t cursor_step_prev(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
@@ -376,6 +387,17 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
     return APR_NOTFOUND;
 }
 
+static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
+{
+    apr_status_t status = APR_SUCCESS;
+
+    do {
+        status = cursor_step_prev(cursor);
+    } while (status == APR_SUCCESS && cursor_on_empty_leaf(cursor));
+
+    return status;
+}
+
 /**
  * @brief Retrieve key-value pairs using cursor.
  */
-- 
2.43.0


From 0191d6371105804f76b64d1fc79dd6a6192178db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:47 +0000
Subject: [PATCH 05/41] fix: commits write copied pages to new locations
 instead of over the live ones

Dirty pages were written back to the place of the originals while the
originals were listed as free: a crash in the middle of a commit, or a
reader of an older snapshot, saw a mix of old and new pages, and later
transactions reused pages that were still in use. Assign new locations at
commit, record the originals in the Free DB (in several entries when they
do not fit into one), and reclaim from all of these entries.
---
 src/napr_db.c          | 184 ++++++++++++++++++++++++++++++-----------
 src/napr_db_internal.h |   7 ++
 src/napr_db_tree.c     |   4 +-
 3 files changed, 143 insertions(+), 52 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index e2ada16..d8aef7f 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -16,6 +16,7 @@
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
 #include <apr_portable.h>
+#include <apr_strings.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -659,22 +660,23 @@ static apr_status_t build_pgno_map(napr_db_txn_t *txn, apr_hash_t **pgno_map_ptr
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Translate a page number into the location the page will have after the commit.
+ */
+static pgno_t map_pgno(apr_hash_t *pgno_map, pgno_t pgno)
+{
+    pgno_t *mapped = apr_hash_get(pgno_map, &pgno, sizeof(pgno_t));
+    return mapped ? *mapped : pgno;
+}
+
 /**
  * @brief Update pointers in dirty pages to point to new page locations.
  * @param txn The transaction.
  * @param pgno_map The mapping from old to new page numbers.
- * @param new_root_pgno_ptr Pointer to store the new root page number.
  */
-static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr)
+static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map)
 {
     apr_hash_index_t *h_index = NULL;
-    pgno_t *mapped_root = apr_hash_get(pgno_map, &txn->root_pgno, sizeof(pgno_t));
-    if (mapped_root) {
-        *new_root_pgno_ptr = *mapped_root;
-    }
-    else {
-        *new_root_pgno_ptr = txn->root_pgno;
-    }
 
     for (h_index = apr_hash_first(txn->pool, txn->dirty_pages); h_index; h_index = apr_hash_next(h_index)) {
         void *val = NULL;
@@ -690,12 +692,7 @@ static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map,
 
         for (idx = 0; idx < dirty_page->num_keys; idx++) {
             DB_BranchNode *branch_node = db_page_branch_node(dirty_page, idx);
-            pgno_t old_child_pgno = branch_node->pgno;
-            pgno_t *new_child_pgno = apr_hash_get(pgno_map, &old_child_pgno, sizeof(pgno_t));
-
-            if (new_child_pgno) {
-                branch_node->pgno = *new_child_pgno;
-            }
+            branch_node->pgno = map_pgno(pgno_map, branch_node->pgno);
         }
     }
 }
@@ -779,44 +776,120 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
 }
 
 /* Insertion shared by the main tree and the Free DB */
+static apr_status_t cow_path(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len);
 static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val_t *key, const napr_db_val_t *data);
 
+/**
+ * @brief Give every page copied by this transaction a new location.
+ *
+ * The originals stay untouched in the file: the last committed state and the snapshots of
+ * readers consist of them, and they only become reusable through the Free DB. Allocating a
+ * location can reclaim a page, which changes the Free DB and so can add to freed_pages.
+ *
+ * @param txn The write transaction
+ * @return APR_SUCCESS or an error code
+ */
+static apr_status_t relocate_copied_pages(napr_db_txn_t *txn)
+{
+    for (int idx = 0; idx < txn->freed_pages->nelts; idx++) {
+        pgno_t old_pgno = APR_ARRAY_IDX(txn->freed_pages, idx, pgno_t);
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &old_pgno, sizeof(pgno_t));
+
+        if (dirty_page && dirty_page->pgno == old_pgno) {
+            pgno_t new_pgno = 0;
+            apr_status_t status = db_page_alloc(txn, 1, &new_pgno);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+            dirty_page->pgno = new_pgno;
+        }
+    }
+
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Copy (CoW) the path of the Free DB that an insertion of key will change.
+ */
+static apr_status_t touch_free_db_path(napr_db_txn_t *txn, const napr_db_val_t *key)
+{
+    pgno_t path[MAX_TREE_DEPTH] = { 0 };
+    uint16_t path_len = 0;
+    DB_PageHeader *leaf_page = NULL;
+    apr_status_t status = APR_SUCCESS;
+
+    if (txn->free_db_root_pgno == 0) {
+        return APR_SUCCESS;
+    }
+    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, key, path, &path_len, &leaf_page);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    return cow_path(txn, path, path_len);
+}
+
 /**
  * @brief Populate the Free DB with freed pages from this transaction.
  *
- * This function inserts an entry into the Free DB mapping:
+ * This function inserts entries into the Free DB mapping:
  * Key = current TXNID, Value = array of freed pgno_t values.
+ * What does not fit into one value continues under keys with a sequence number appended.
  *
  * The Free DB is a separate B+ tree that tracks which pages were freed
  * by which transaction. This enables safe page reclamation based on
  * the oldest active reader.
  *
+ * Recording a page can copy Free DB pages, which are freed in turn: they are recorded as well,
+ * until no more come up. No page is reclaimed meanwhile.
+ *
  * @param txn The write transaction
- * @param new_free_db_root_out Output: the new Free DB root page number
  * @return APR_SUCCESS or an error code
  */
-static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
+static apr_status_t populate_free_db(napr_db_txn_t *txn)
 {
-    napr_db_val_t key = { 0 };
+    uint64_t key_parts[2] = { txn->txnid, 0 };
+    napr_db_val_t key = {.data = key_parts,.size = sizeof(txnid_t) };
     napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
+    int done = 0;
+    apr_status_t status = APR_SUCCESS;
 
-    if (!txn || !new_free_db_root_out) {
-        return APR_EINVAL;
+    if (txn->freed_pages->nelts == 0) {
+        return APR_SUCCESS;
     }
 
-    *new_free_db_root_out = txn->free_db_root_pgno;
-    if (!txn->freed_pages || txn->freed_pages->nelts == 0) {
-        return APR_SUCCESS;
+    status = touch_free_db_path(txn, &key);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    status = relocate_copied_pages(txn);
+    if (status != APR_SUCCESS) {
+        return status;
     }
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
-    key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
+    txn->no_reclaim = 1;
+    while (done < txn->freed_pages->nelts) {
+        status = touch_free_db_path(txn, &key);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        int count = txn->freed_pages->nelts - done;
+        if (count > DB_FREE_ENTRY_MAX_PAGES) {
+            count = DB_FREE_ENTRY_MAX_PAGES;
+        }
+        data.data = &APR_ARRAY_IDX(txn->freed_pages, done, pgno_t);
+        data.size = (apr_size_t) count *sizeof(pgno_t);
+        status = tree_put(txn, &txn->free_db_root_pgno, &key, &data);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        done += count;
+        key_parts[1]++;
+        key.size = sizeof(key_parts);
+    }
 
-    return tree_put(txn, new_free_db_root_out, &key, &data);
+    return relocate_copied_pages(txn);
 }
 
 /**
@@ -891,25 +964,35 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
     txnid_t entry_txnid = 0;
+    napr_db_val_t last_key = { 0 };
+    napr_db_val_t last_data = { 0 };
+    int entries = 0;
 
     status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
     while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
-            status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
-            continue;
-        }
-
-        memcpy(&entry_txnid, key->data, sizeof(txnid_t));
-
-        if (entry_txnid < oldest_reader_txnid) {
-            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
-                return APR_SUCCESS;
+        if (key->size >= sizeof(txnid_t)) {
+            memcpy(&entry_txnid, key->data, sizeof(txnid_t));
+
+            if (entry_txnid < oldest_reader_txnid && data->size % sizeof(pgno_t) == 0 && data->size > 0) {
+                if (data->size > sizeof(pgno_t)) {
+                    return APR_SUCCESS;
+                }
+                last_key = *key;
+                last_data = *data;
+                entries++;
             }
         }
 
         status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
     }
 
+    /* Taking the last page of an entry removes the entry: only bother when many are left */
+    if (entries > DB_FREE_SINGLE_PAGE_ENTRIES) {
+        *key = last_key;
+        *data = last_data;
+        return APR_SUCCESS;
+    }
+
     return APR_NOTFOUND;
 }
 
@@ -920,8 +1003,11 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
     apr_status_t status;
     size_t num_pages = data->size / sizeof(pgno_t);
 
+    /* Deleting the entry moves data within its page, the key it is found by included */
+    napr_db_val_t own_key = {.data = apr_pmemdup(txn->pool, key->data, key->size),.size = key->size };
+
     if (num_pages == 1) {
-        return napr_db_del(txn, key, NULL);
+        return napr_db_del(txn, &own_key, NULL);
     }
 
     pgno_t *freed_pages = (pgno_t *) data->data;
@@ -933,12 +1019,12 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
-    status = napr_db_del(txn, key, NULL);
+    status = napr_db_del(txn, &own_key, NULL);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return napr_db_put(txn, &own_key, &new_data);
 }
 
 /**
@@ -956,7 +1042,7 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
     if (!txn || !reclaimed_pgno_out) {
         return APR_EINVAL;
     }
-    if (txn->free_db_root_pgno == 0) {
+    if (txn->free_db_root_pgno == 0 || txn->no_reclaim) {
         return APR_NOTFOUND;
     }
 
@@ -1058,7 +1144,6 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
     apr_status_t status = APR_SUCCESS;
     int is_write = 0;
     apr_hash_t *pgno_map = NULL;
-    pgno_t new_root_pgno = 0;
 
     if (!txn) {
         return APR_EINVAL;
@@ -1088,8 +1173,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Populate the Free DB with freed pages from this transaction FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
-    pgno_t new_free_db_root = 0;
-    status = populate_free_db(txn, &new_free_db_root);
+    status = populate_free_db(txn);
     if (status != APR_SUCCESS) {
         goto cleanup;
     }
@@ -1099,7 +1183,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         goto cleanup;
     }
 
-    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
+    update_dirty_page_pointers(txn, pgno_map);
 
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
@@ -1112,7 +1196,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
     }
 
     status = commit_meta_page(txn, (DB_CommitPgnos) {
-                              .new_root_pgno = new_root_pgno,.new_free_db_root_pgno = new_free_db_root}
+                              .new_root_pgno = map_pgno(pgno_map, txn->root_pgno),.new_free_db_root_pgno = map_pgno(pgno_map, txn->free_db_root_pgno)}
     );
     if (status != APR_SUCCESS) {
         goto cleanup;
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index b607626..34c5f0e 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -113,6 +113,12 @@ typedef struct DB_ReaderSlot
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
+/* Largest number of pages recorded in one Free DB entry */
+#define DB_FREE_ENTRY_MAX_PAGES 120
+
+/* Number of reclaimable Free DB entries that may keep a single page each */
+#define DB_FREE_SINGLE_PAGE_ENTRIES 16
+
 /*
  * Constants
  */
@@ -329,6 +335,7 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         int no_reclaim;        /**< Set while the Free DB is being written: allocate new pages only */
      };
 
 /**
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 2c370d4..4c88226 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -309,8 +309,8 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  * - On subsequent modifications: return the existing dirty copy
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
- * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * keyed by the original page number. On commit, dirty pages are given
+ * new locations in the file.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From 9f9885a9c7e80321c6ae202cd4e2ad819db8d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 06/41] fix: allocating pages beyond the memory map fails with
 APR_ENOSPC

Pages past the mapped size were handed out, written and then read outside
the map.
---
 src/napr_db_tree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 4c88226..7e075f4 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -293,8 +293,11 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
-    /* Fall back to extending the file (original behavior) */
+    /* Fall back to extending the file (original behavior), within the memory map */
     first_pgno = txn->new_last_pgno + 1;
+    if (first_pgno + count > txn->env->mapsize / PAGE_SIZE) {
+        return APR_ENOSPC;
+    }
     txn->new_last_pgno += count;
 
     *pgno_out = first_pgno;
-- 
2.43.0


From 22fb2d16c958e919e6ee49a9ad002789f6736f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:59 +0000
Subject: [PATCH 07/41] fix: a commit whose meta page write or sync fails is
 taken back

The failed commit's meta page could still reach the disk and become the
live one after a restart, while later transactions of the same process
had already reused its transaction id and pages. Restore the previous meta
page; if that fails as well, refuse further write transactions.
---
 src/napr_db.c          | 46 +++++++++++++++++++++++++++++-------------
 src/napr_db_internal.h |  1 +
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index d8aef7f..5acf524 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -55,6 +55,7 @@ apr_status_t napr_db_env_create(napr_db_env_t **env, apr_pool_t *pool)
     env_handle->live_meta = NULL;
     env_handle->writer_thread_mutex = NULL;
     env_handle->writer_proc_mutex = NULL;
+    env_handle->failed = 0;
 
     *env = env_handle;
     return APR_SUCCESS;
@@ -526,6 +527,11 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             apr_pool_destroy(txn_pool);
             return status;
         }
+        if (env->failed) {
+            db_writer_unlock(env);
+            apr_pool_destroy(txn_pool);
+            return APR_EGENERAL;
+        }
     }
 
     /* Initialize transaction */
@@ -1082,6 +1088,24 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
     return status;
 }
 
+/**
+ * @brief Write one meta page and make it durable.
+ */
+static apr_status_t write_meta_page(napr_db_env_t *env, pgno_t meta_pgno, const DB_MetaPage *meta)
+{
+    apr_off_t meta_offset = (apr_off_t) meta_pgno *PAGE_SIZE;
+    apr_status_t status = apr_file_seek(env->file, APR_SET, &meta_offset);
+
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    status = apr_file_write_full(env->file, meta, PAGE_SIZE, NULL);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    return apr_file_sync(env->file);
+}
+
 /**
  * @brief Atomically update the meta page to commit the transaction.
  * @param txn The transaction.
@@ -1092,10 +1116,9 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
 {
     apr_status_t status = APR_SUCCESS;
     DB_MetaPage updated_meta;
+    DB_MetaPage previous_meta;
     DB_MetaPage *stale_meta = NULL;
     pgno_t meta_pgno = 0;
-    apr_off_t meta_offset = 0;
-    apr_size_t meta_bytes = PAGE_SIZE;
 
     if (txn->env->live_meta == txn->env->meta0) {
         stale_meta = txn->env->meta1;
@@ -1114,20 +1137,15 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     updated_meta.last_pgno = txn->new_last_pgno;
     updated_meta.free_db_root = pgnos.new_free_db_root_pgno;
 
-    meta_offset = (apr_off_t) meta_pgno *PAGE_SIZE;
-
-    status = apr_file_seek(txn->env->file, APR_SET, &meta_offset);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    memcpy(&previous_meta, stale_meta, sizeof(DB_MetaPage));
 
-    status = apr_file_sync(txn->env->file);
+    status = write_meta_page(txn->env, meta_pgno, &updated_meta);
     if (status != APR_SUCCESS) {
+        /* The new meta page may be on disk all the same. The commit is reported as failed, so take it
+         * back; if that fails too, pages it refers to must not be changed by later transactions. */
+        if (write_meta_page(txn->env, meta_pgno, &previous_meta) != APR_SUCCESS) {
+            txn->env->failed = 1;
+        }
         return status;
     }
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 34c5f0e..5883d3d 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -292,6 +292,7 @@ typedef struct __attribute__((packed))
          DB_MetaPage *meta0;    /**< Pointer to Meta Page 0 in mmap */
          DB_MetaPage *meta1;    /**< Pointer to Meta Page 1 in mmap */
          DB_MetaPage *live_meta;/**< Pointer to current active meta page */
+         int failed;            /**< Set when the on-disk meta pages are unknown: no more writers */
 
          /* Synchronization - SWMR model */
          apr_thread_mutex_t *writer_thread_mutex;
-- 
2.43.0


From 72c4775252b0abafd995a58fd3538f1eab029cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 08/41] fix: opening a database survives interrupted creation
 and refuses damaged files

A crash while a database was being created left a file that could never be
opened again or, half-initialised, led to accesses outside the file; files
shorter than the pages they claim to contain crashed with SIGBUS, also with
a map smaller than the database. Creating also truncated a file that had
come into existence since it was looked for.
---
 src/napr_db.c          | 100 +++++++++++++++++++++++++++++++++++------
 src/napr_db_internal.h |   1 +
 2 files changed, 87 insertions(+), 14 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 5acf524..bf19b02 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -163,6 +163,32 @@ static apr_status_t select_live_meta(napr_db_env_t *env)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Tell whether a file is what an interrupted creation leaves: empty, or nothing but zeros.
+ *
+ * @param env Database environment with the file open
+ * @param size Size of the file
+ * @return 1 if so, 0 otherwise (also if the file cannot be read)
+ */
+static int is_unfinished_file(napr_db_env_t *env, apr_off_t size)
+{
+    char bytes[2 * PAGE_SIZE];
+    apr_size_t len = 0;
+
+    if (size > (apr_off_t) sizeof(bytes)) {
+        return 0;
+    }
+    if (size > 0 && apr_file_read_full(env->file, bytes, (apr_size_t) size, &len) != APR_SUCCESS) {
+        return 0;
+    }
+    for (apr_size_t idx = 0; idx < len; idx++) {
+        if (bytes[idx] != 0) {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /**
  * @brief Open or create the database file.
  *
@@ -192,21 +218,34 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
 
     if (status == APR_SUCCESS) {
         *is_new_file = 0;
-        return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
+        status = apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        if (!is_unfinished_file(env, finfo.size)) {
+            return APR_SUCCESS;
+        }
+        /* Creation was interrupted before the meta pages were written: start over if we may */
+        if ((env->flags & NAPR_DB_RDONLY) || !(env->flags & NAPR_DB_CREATE)) {
+            apr_file_close(env->file);
+            env->file = NULL;
+            return APR_EINVAL;
+        }
     }
+    else {
+        /* File doesn't exist */
+        if (!(env->flags & NAPR_DB_CREATE)) {
+            return APR_ENOENT;
+        }
 
-    /* File doesn't exist */
-    if (!(env->flags & NAPR_DB_CREATE)) {
-        return APR_ENOENT;
+        file_flags |= APR_CREATE | APR_EXCL;
+        status = apr_file_open(&env->file, path, file_flags, APR_FPROT_UREAD | APR_FPROT_UWRITE, env->pool);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
     }
 
     *is_new_file = 1;
-    file_flags |= APR_CREATE | APR_TRUNCATE;
-    status = apr_file_open(&env->file, path, file_flags, APR_FPROT_UREAD | APR_FPROT_UWRITE, env->pool);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
     apr_off_t min_size = (apr_off_t) 2 * PAGE_SIZE;
     status = apr_file_trunc(env->file, min_size);
     if (status != APR_SUCCESS) {
@@ -225,6 +264,17 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
 static apr_status_t db_mmap_file(napr_db_env_t *env)
 {
     apr_status_t status = APR_SUCCESS;
+    apr_finfo_t finfo;
+
+    /* Both meta pages are accessed through the map: they must be in the file and in the map */
+    status = apr_file_info_get(&finfo, APR_FINFO_SIZE, env->file);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    if (finfo.size < (apr_off_t) 2 * PAGE_SIZE || env->mapsize < (apr_size_t) 2 * PAGE_SIZE) {
+        return APR_EINVAL;
+    }
+    env->file_size = finfo.size;
 
     status = apr_mmap_create(&env->mmap, env->file, 0, env->mapsize, APR_MMAP_READ | ((env->flags & NAPR_DB_RDONLY) ? 0 : APR_MMAP_WRITE), env->pool);
     if (status != APR_SUCCESS) {
@@ -253,10 +303,22 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
     if (is_new_file) {
-        init_meta_page(env->meta0, 0);
-        init_meta_page(env->meta1, 1);
+        /* Written in one go, not field by field through the map: a crash must not leave half a meta page */
+        DB_MetaPage metas[2];
+        apr_off_t offset = 0;
+
+        init_meta_page(&metas[0], 0);
+        init_meta_page(&metas[1], 1);
 
-        apr_status_t status = apr_file_sync(env->file);
+        apr_status_t status = apr_file_seek(env->file, APR_SET, &offset);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        status = apr_file_write_full(env->file, metas, sizeof(metas), NULL);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        status = apr_file_sync(env->file);
         if (status != APR_SUCCESS) {
             return status;
         }
@@ -264,7 +326,17 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         return APR_SUCCESS;
     }
 
-    return select_live_meta(env);
+    apr_status_t status = select_live_meta(env);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    /* The pages in use must be in the file and in the map */
+    pgno_t last_pgno = env->live_meta->last_pgno;
+    if (last_pgno >= (pgno_t) env->file_size / PAGE_SIZE || last_pgno >= env->mapsize / PAGE_SIZE || env->live_meta->root > last_pgno || env->live_meta->free_db_root > last_pgno) {
+        return APR_EINVAL;
+    }
+    return APR_SUCCESS;
 }
 
 /**
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 5883d3d..1d6f304 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -285,6 +285,7 @@ typedef struct __attribute__((packed))
 
          /* File and mapping */
          apr_file_t *file;      /**< Database file handle */
+         apr_off_t file_size;   /**< Size of the file when it was opened */
          apr_mmap_t *mmap;      /**< Memory map handle */
          void *map_addr;        /**< Base address of memory map */
 
-- 
2.43.0


From 5f05037467c03f4bad632f55d4c690c69bbbbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:59 +0000
Subject: [PATCH 09/41] fix: waiting for the thread pool returns only when
 every submitted task is done

---
 src/napr_threadpool.c | 65 ++++++++++---------------------------------
 1 file changed, 15 insertions(+), 50 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..ea97c0c 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -162,39 +162,16 @@ struct napr_threadpool_t
     void *ctx;
     /* This mutex protects everything below in writing and reading */
     apr_thread_mutex_t *threadpool_mutex;
+    /* Signalled when there is work for a worker, or when workers have to stop */
     apr_thread_cond_t *threadpool_update;
+    /* Signalled when the list is empty and every worker is waiting */
+    apr_thread_cond_t *threadpool_idle;
     unsigned long nb_thread;
     unsigned long nb_waiting;
     napr_list_t *list;
     threadpool_process_data_callback_fn_t *process_data;
     apr_pool_t *pool;
 
-    /*
-     * run == 0x1 means we are currently processing data
-     * run == 0x0 means we are creating the pool, OR (exclusive) we were
-     *        processing data and encountered a end of list and all thread are
-     *        waiting (no more data).
-     * Algorithm : 
-     * run &= 0x0;
-     *     create the thread pool loops :
-     *         code in the loop say :
-     *         run at 0x0, we can be nb_thread == nb_waiting in a "wait" mode.
-     *         This doesn't matter.
-     *
-     * external caller function add all data to process, then call the napr_threadpool_wait:
-     *     napr_threadpool_add_data:
-     *         fill list.
-     *     napr_threadpool_wait:
-     *         run |= 0x1;
-     *
-     *         code in the loop say :
-     *         run at 0x1, if we are at nb_thread == nb_waiting I'd better warn
-     *         the caller of the napr_threadpool_wait function that the processing
-     *         is ended.
-     */
-
-    unsigned int run:1;
-    unsigned int ended:1;
     unsigned int shutdown:1;
 };
 
@@ -221,15 +198,18 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
+    status = apr_thread_cond_create(&((*threadpool)->threadpool_idle), (*threadpool)->pool);
+    if (APR_SUCCESS != status) {
+        DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        return status;
+    }
     (*threadpool)->thread = (apr_thread_t **) apr_palloc((*threadpool)->pool, nb_thread * sizeof(apr_thread_t *));
     (*threadpool)->ctx = ctx;
     (*threadpool)->nb_thread = nb_thread;
     (*threadpool)->nb_waiting = 0UL;
     (*threadpool)->list = napr_list_make((*threadpool)->pool);
     (*threadpool)->process_data = process_data;
-    (*threadpool)->run &= 0x0;
-    (*threadpool)->ended &= 0x0;
-    (*threadpool)->shutdown &= 0x0;
+    (*threadpool)->shutdown = 0x0;
 
     for (idx = 0; idx < nb_thread; idx++) {
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
@@ -252,7 +232,6 @@ extern apr_status_t napr_threadpool_add(napr_threadpool_t *threadpool, void *dat
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    threadpool->ended &= 0x0;
     napr_list_enqueue(threadpool->list, data);
     status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);
     if (APR_SUCCESS != status) {
@@ -272,32 +251,19 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
 {
     char errbuf[ERR_BUF_SIZE] = { 0 };
     apr_status_t status = APR_SUCCESS;
-    int list_size = 0;
 
-    /* DEBUG_DBG("Called"); */
     status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
     if (APR_SUCCESS != status) {
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    list_size = (int) napr_list_size(threadpool->list);
-    if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {
-        /* DEBUG_DBG("After lock before wait"); */
-        /*
-         * Because the caller of this function has added all data we are now
-         * running, the line after, (cond_wait), make us wait to the end of
-         * processing.
-         */
-        threadpool->run |= 0x1;
-
-        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+    /* A wake-up is only a hint: everything is done once the list is empty and every worker waits for work. */
+    while ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread)) {
+        status = apr_thread_cond_wait(threadpool->threadpool_idle, threadpool->threadpool_mutex);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
         }
-        /* DEBUG_DBG("Awake"); */
-        /* Because all data have been processed, we are no more running  */
-        threadpool->run &= 0x0;
     }
     /*
      * garbage collecting under lock protection to avoid list manipulation
@@ -353,9 +319,8 @@ static apr_status_t wait_for_task(napr_threadpool_t *threadpool)
 
     threadpool->nb_waiting++;
 
-    if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting == threadpool->nb_thread)) {
-        threadpool->ended |= 0x1;
-        status = apr_thread_cond_broadcast(threadpool->threadpool_update);
+    if (threadpool->nb_waiting == threadpool->nb_thread) {
+        status = apr_thread_cond_broadcast(threadpool->threadpool_idle);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_broadcast: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
@@ -385,7 +350,7 @@ static void *APR_THREAD_FUNC napr_threadpool_loop(apr_thread_t *thd, void *rec)
     }
 
     while (!(threadpool->shutdown & 0x1)) {
-        if ((0 < napr_list_size(threadpool->list)) && !(threadpool->ended & 0x1)) {
+        if (0 < napr_list_size(threadpool->list)) {
             status = process_task(threadpool);
         }
         else {
-- 
2.43.0


From eac2b95b0a05bae840910d85fba1d95793e961fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:59 +0000
Subject: [PATCH 10/41] fix: a thread pool whose creation fails part-way leaves
 no worker running

---
 src/napr_threadpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index ea97c0c..96faa81 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -215,6 +215,9 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* Stop the workers that were already started. */
+            (*threadpool)->nb_thread = idx;
+            napr_threadpool_shutdown(*threadpool);
             return status;
         }
     }
-- 
2.43.0


From cf4900825f88bf705119c6f6b3684197c96498ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:06 +0000
Subject: [PATCH 11/41] fix: updating a cache entry twice in one write
 transaction works

---
 src/napr_cache.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..507d2fb 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,8 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    apr_status_t status;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +352,16 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Inserted earlier in this same transaction: the database wants it deleted first. */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+
+    return status;
 }
 
 /* ========================================================================
-- 
2.43.0


From ef64bd82af2958b097be29992da8e7ce69a679df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 12/41] fix: streamed comparison calls files equal only when
 both were read to the end

---
 src/ft_file.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..0483f80 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -233,6 +233,7 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status1 = APR_SUCCESS;
     apr_status_t status2 = APR_SUCCESS;
+    apr_off_t total = 0;
 
     if (0 == size) {
         *result_out = 0;
@@ -250,20 +251,30 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return status1;
     }
 
+    /*
+     * apr_file_read_full() retries short reads, so that chunks of both files
+     * line up, and returns APR_EOF together with the bytes before the end.
+     */
+    *result_out = 0;
     do {
         rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        rbytes2 = HUGE_LEN;
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {
+            DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
+            DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
+            (void) apr_file_close(fd2);
+            (void) apr_file_close(fd1);
+            return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
+        total += (apr_off_t) rbytes1;
+        *result_out = (rbytes1 != rbytes2) ? 1 : memcmp(data_chunk1, data_chunk2, rbytes1);
+    } while ((0 == *result_out) && (APR_SUCCESS == status1) && (APR_SUCCESS == status2));
 
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
-        DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
-        DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
+    /* Both files ended early (or late): they are not the files whose size was recorded. */
+    if ((0 == *result_out) && (total != size)) {
+        *result_out = 1;
     }
 
     status1 = apr_file_close(fd2);
-- 
2.43.0


From de92ed3fd74b663fbfb923a9afc01946a47d4d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:12 +0000
Subject: [PATCH 13/41] fix: plain files no longer carry an uninitialised
 archive member name

---
 src/ft_traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..92d478d 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -64,7 +64,7 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
-        ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
+        ft_file_t *file = apr_pcalloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
         file->size = finfo->size;
         file->mtime = finfo->mtime;
-- 
2.43.0


From 06b8fbdadd68806a5043503fdce41c3f12ebf447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:03 +0000
Subject: [PATCH 14/41] fix: a file or directory that cannot be inspected no
 longer ends the traversal

---
 src/ft_traverse.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 92d478d..4e78f70 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,11 +25,11 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
-            if (is_option_set(conf->mask, OPTION_VERBO)) {
+        if (is_option_set(conf->mask, OPTION_FSYML) && is_option_set(conf->mask, OPTION_VERBO)) {
+            apr_finfo_t link_info;
+            if (APR_SUCCESS == apr_stat(&link_info, filename, APR_FINFO_LINK | APR_FINFO_TYPE, pool) && link_info.filetype == APR_LNK) {
                 (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
             }
-            return APR_SUCCESS;
         }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
     }
@@ -131,7 +131,11 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
     }
 
-    while (apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir) == APR_SUCCESS && finfo.name != NULL) {
+    for (;;) {
+        status = apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir);
+        if ((status != APR_SUCCESS && status != APR_INCOMPLETE) || finfo.name == NULL) {
+            break;
+        }
         if (napr_hash_search(conf->ig_files, finfo.name, strlen(finfo.name), NULL) != NULL || (finfo.name[0] == '.' && !is_option_set(conf->mask, OPTION_SHOW_HIDDEN))) {
             continue;
         }
@@ -140,14 +144,12 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
-        status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
-        if (status != APR_SUCCESS) {
-            break;
-        }
+        /* An entry that cannot be processed is reported and skipped, the others still count. */
+        (void) process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
     }
 
     apr_dir_close(dir);
-    return status;
+    return APR_SUCCESS;
 }
 
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
-- 
2.43.0


From 425aad69fd0349b35ec2ec76bc71785d8afed15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:04 +0000
Subject: [PATCH 15/41] fix: following symbolic links does not descend into a
 directory it is already in

---
 src/ft_traverse.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 4e78f70..d7f573a 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -89,7 +89,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
@@ -97,11 +97,7 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -145,7 +141,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
         /* An entry that cannot be processed is reported and skipped, the others still count. */
-        (void) process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
+        (void) process_directory_entry(fullname, conf, gc_pool, stats, current_ctx);
     }
 
     apr_dir_close(dir);
@@ -168,7 +164,17 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        struct stats self;
+
+        /* A symbolic link may lead back to a directory that is being traversed. */
+        for (const struct stats *ancestor = stats; ancestor != NULL; ancestor = ancestor->parent) {
+            if (ancestor->stat.inode == finfo.inode && ancestor->stat.device == finfo.device) {
+                return APR_SUCCESS;
+            }
+        }
+        self.parent = stats;
+        self.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
-- 
2.43.0


From a2b3dd89e3ffec60d1804aeda2fb07d21b8eabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:39 +0000
Subject: [PATCH 16/41] fix: a bad argument no longer keeps the other arguments
 from being processed

---
 src/ftwin.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ftwin.c b/src/ftwin.c
index a55bf00..7f6658f 100644
--- a/src/ftwin.c
+++ b/src/ftwin.c
@@ -75,6 +75,7 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
 {
     char errbuf[ERR_BUF_SIZE];
     apr_pool_t *gc_pool = NULL;
+    apr_status_t argument_status = APR_SUCCESS;
     apr_status_t status = apr_pool_create(&gc_pool, conf->pool);
 
     if (APR_SUCCESS != status) {
@@ -82,6 +83,7 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
         return status;
     }
 
+    /* An argument that cannot be processed makes the run fail in the end, the other arguments are still processed. */
     for (int arg_index = first_arg_index; arg_index < argc; arg_index++) {
         const char *current_arg = argv[arg_index];
         char *resolved_path = (char *) current_arg;
@@ -90,16 +92,18 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
             status = apr_filepath_merge(&resolved_path, NULL, current_arg, APR_FILEPATH_TRUENAME, gc_pool);
             if (APR_SUCCESS != status) {
                 DEBUG_ERR("Error resolving absolute path for argument %s: %s.", current_arg, apr_strerror(status, errbuf, ERR_BUF_SIZE));
-                return status;
+                argument_status = status;
+                continue;
             }
         }
 
         status = ft_traverse_path(conf, resolved_path);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-            return status;
+            argument_status = status;
         }
     }
+    status = APR_SUCCESS;
 
     if (napr_heap_size(conf->heap) > 0) {
         if (is_option_set(conf->mask, OPTION_PUZZL)) {
@@ -127,7 +131,7 @@ static apr_status_t run_ftwin_processing(ft_conf_t *conf, int argc, const char *
     }
 
     apr_pool_destroy(gc_pool);
-    return status;
+    return (APR_SUCCESS != status) ? status : argument_status;
 }
 
 int ftwin_main(int argc, const char **argv)
-- 
2.43.0


From b190b3823bbbbd5a4e7111fe3745c6606f832189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:03 +0000
Subject: [PATCH 17/41] fix: a file that could not be hashed takes no part in
 the report

---
 src/ft_process.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..5cd37fd 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -32,6 +32,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
     status = apr_pool_create(&subpool, h_ctx->pool);
     if (APR_SUCCESS != status) {
         DEBUG_ERR("error calling apr_pool_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        fsize->chksum_array[task->index].file = NULL;
         return status;
     }
 
@@ -39,6 +40,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         filepath = ft_archive_untar_file(file, subpool);
         if (NULL == filepath) {
             DEBUG_ERR("error calling ft_archive_untar_file");
+            fsize->chksum_array[task->index].file = NULL;
             apr_pool_destroy(subpool);
             return APR_EGENERAL;
         }
@@ -69,6 +71,8 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         }
     }
     else {
+        /* Without a hash this file cannot take part in the report. */
+        fsize->chksum_array[task->index].file = NULL;
         if (is_option_set(h_ctx->conf->mask, OPTION_VERBO)) {
             (void) fprintf(stderr, "\nskipping %s because: %s\n", file->path, apr_strerror(status, errbuf, ERR_BUF_SIZE));
         }
@@ -253,11 +257,17 @@ static apr_status_t collect_hashing_results(ft_conf_t *conf, napr_heap_t *tmp_he
         }
 
         if (should_insert) {
+            apr_uint32_t nb_hashed = 0;
+
+            /* Keep only the files that could be hashed. */
             for (apr_uint32_t idx = 0; idx < fsize->nb_files; idx++) {
                 if (NULL != fsize->chksum_array[idx].file) {
+                    fsize->chksum_array[nb_hashed++] = fsize->chksum_array[idx];
                     napr_heap_insert(tmp_heap, fsize->chksum_array[idx].file);
                 }
             }
+            fsize->nb_files = nb_hashed;
+            fsize->nb_checksumed = nb_hashed;
         }
     }
 
-- 
2.43.0


From 13830547a0075c4068999ade309777ba79c553c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:04 +0000
Subject: [PATCH 18/41] fix: a failed comparison neither crashes nor ends the
 report

---
 src/ft_report.c      | 6 +++++-
 src/ft_report_json.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..e712fe3 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -81,6 +81,10 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     }
 
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
+        if (NULL == fsize->chksum_array[j_index].file) {
+            continue;           /* Already reported as a twin of another file */
+        }
+
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
@@ -234,7 +238,7 @@ static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize,
 
     if (get_comparison_paths(conf, file1, file2, &fpathi, &fpathj) != APR_SUCCESS) {
         DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        return APR_EGENERAL;
+        return APR_SUCCESS;     /* Continue processing other pairs */
     }
 
     status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..8dfcbf7 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -99,7 +99,8 @@ static apr_status_t perform_file_comparison(ft_conf_t *conf, ft_chksum_t *chksum
 
     if (get_comparison_paths(conf, file1, file2, &fpath1, &fpath2) != APR_SUCCESS) {
         DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        return APR_EGENERAL;
+        *result = 1;            /* Treat comparison error as "not a duplicate" */
+        return APR_SUCCESS;
     }
 
     status = filecmp(conf->pool, fpath1, fpath2, file_size, conf->excess_size, result);
@@ -144,6 +145,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
         json_t *duplicates_array = NULL;
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
+            if (fsize->chksum_array[j].file == NULL) {
+                continue;       /* Already reported as a twin of another file */
+            }
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
-- 
2.43.0


From 38f74ec906b285828cbfb8e4b3a732234d454159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:47 +0000
Subject: [PATCH 19/41] fix: a file that changed size since it was found is
 neither mapped, hashed nor compared

Also close each file once and unmap the first when the second cannot be mapped.
---
 src/ft_file.c | 65 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 0483f80..02800b9 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,33 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+/**
+ * @brief Opens a file for reading, provided that it still has the size recorded when it was found.
+ *
+ * Mapping a file that has shrunk would end in SIGBUS, and hashing or comparing
+ * only the first bytes of one that has grown would take it for another file.
+ */
+static apr_status_t open_unchanged_file(apr_file_t **file_descriptor, const char *filename, apr_off_t size, apr_pool_t *pool)
+{
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_open(file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+
+    if (APR_SUCCESS != status) {
+        return status;
+    }
+
+    status = apr_file_info_get(&finfo, APR_FINFO_SIZE, *file_descriptor);
+    if (APR_SUCCESS == status && finfo.size != size) {
+        DEBUG_ERR("the size of %s has changed, skipping", filename);
+        status = APR_EMISMATCH;
+    }
+    if (APR_SUCCESS != status) {
+        (void) apr_file_close(*file_descriptor);
+    }
+
+    return status;
+}
+
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
     char errbuf[CHAR_MAX_VAL];
@@ -51,7 +78,7 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status = APR_SUCCESS;
 
-    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);
+    status = open_unchanged_file(&file_descriptor, filename, size, gc_pool);
     if (APR_SUCCESS != status) {
         return status;
     }
@@ -89,6 +116,7 @@ static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_h
     memset(data_chunk, 0, sizeof(data_chunk));
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status = APR_SUCCESS;
+    apr_off_t total = 0;
     XXH3_state_t *const state = XXH3_createState();
 
     if (state == NULL) {
@@ -96,7 +124,7 @@ static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_h
     }
     XXH3_128bits_reset(state);
 
-    status = apr_file_open(&file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, gc_pool);
+    status = open_unchanged_file(&file_descriptor, filename, size, gc_pool);
     if (APR_SUCCESS != status) {
         XXH3_freeState(state);
         return status;
@@ -112,6 +140,7 @@ static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_h
                 (void) apr_file_close(file_descriptor);
                 return APR_EGENERAL;
             }
+            total += (apr_off_t) rbytes;
         }
     } while (APR_SUCCESS == status);
 
@@ -122,6 +151,13 @@ static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_h
         return status;
     }
 
+    if (total != size) {
+        DEBUG_ERR("read %" APR_OFF_T_FMT " bytes of %s instead of %" APR_OFF_T_FMT ", skipping", total, filename, size);
+        XXH3_freeState(state);
+        (void) apr_file_close(file_descriptor);
+        return APR_EGENERAL;
+    }
+
     *hash_out = XXH3_128bits_digest(state);
     XXH3_freeState(state);
 
@@ -158,7 +194,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return APR_SUCCESS;
     }
 
-    status = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status = open_unchanged_file(&fd1, fname1, size, pool);
     if (APR_SUCCESS != status) {
         return status;
     }
@@ -169,7 +205,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
 
-    status = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status = open_unchanged_file(&fd2, fname2, size, pool);
     if (APR_SUCCESS != status) {
         apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
@@ -179,7 +215,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
@@ -240,12 +276,12 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return APR_SUCCESS;
     }
 
-    status1 = apr_file_open(&fd1, fname1, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status1 = open_unchanged_file(&fd1, fname1, size, pool);
     if (APR_SUCCESS != status1) {
         return status1;
     }
 
-    status1 = apr_file_open(&fd2, fname2, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
+    status1 = open_unchanged_file(&fd2, fname2, size, pool);
     if (APR_SUCCESS != status1) {
         (void) apr_file_close(fd1);
         return status1;
@@ -295,11 +331,22 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
 
 extern apr_status_t filecmp(apr_pool_t *pool, const char *fname1, const char *fname2, apr_off_t size, apr_off_t excess_size, int *result_out)
 {
+    apr_status_t status = APR_SUCCESS;
+
     if (size < excess_size) {
-        return small_filecmp(pool, fname1, fname2, size, result_out);
+        status = small_filecmp(pool, fname1, fname2, size, result_out);
+    }
+    else {
+        status = big_filecmp(pool, fname1, fname2, size, result_out);
+    }
+
+    /* Files of another size are different. */
+    if (APR_EMISMATCH == status) {
+        *result_out = 1;
+        status = APR_SUCCESS;
     }
 
-    return big_filecmp(pool, fname1, fname2, size, result_out);
+    return status;
 }
 
 /**
-- 
2.43.0


From 27f5bb20743187c179d725259fac46a3665afea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:17 +0000
Subject: [PATCH 20/41] fix: an ignore file that cannot be read to the end is
 not used in part

---
 src/ft_ignore.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..f4dd915 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -367,13 +367,18 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
         return status;
     }
 
-    while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
+    while ((status = apr_file_gets(line, (int) sizeof(line), file)) == APR_SUCCESS) {
         /* Remove newline */
         apr_size_t len = strlen(line);
         if (len > 0 && line[len - 1] == '\n') {
             line[len - 1] = '\0';
             len--;
         }
+        else if (len + 1 < sizeof(line) && apr_file_eof(file) != APR_EOF) {
+            /* A read error cut this line short: it may mean anything now. */
+            status = APR_EGENERAL;
+            break;
+        }
         if (len > 0 && line[len - 1] == '\r') {
             line[len - 1] = '\0';
         }
@@ -382,7 +387,7 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     }
 
     (void) apr_file_close(file);
-    return APR_SUCCESS;
+    return (APR_EOF == status) ? APR_SUCCESS : status;
 }
 
 ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *fullpath, int is_dir)
-- 
2.43.0


From 64a51f733d42c39421e42d7a58a837b6633a63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:33 +0000
Subject: [PATCH 21/41] fix: a file that goes bad while duplicates are compared
 does not split or hide the group of the others

---
 src/ft_report.c      | 142 +++++++++++++++++++++++++++----------------
 src/ft_report.h      |  15 +++++
 src/ft_report_json.c |  82 +++----------------------
 3 files changed, 113 insertions(+), 126 deletions(-)

diff --git a/src/ft_report.c b/src/ft_report.c
index e712fe3..d93c8cd 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -26,6 +26,7 @@
 #include <unistd.h>
 
 #include <apr_strings.h>
+#include <apr_tables.h>
 #include <apr_file_io.h>
 
 #include "config.h"
@@ -54,16 +55,15 @@ int ft_chksum_cmp(const void *chksum1, const void *chksum2)
 }
 
 /* Forward declaration for helper function */
-static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index1, apr_size_t index2, unsigned char *already_printed, const reporting_colors_t *colors);
+static void format_and_print_duplicate(ft_conf_t *conf, const ft_file_t *file, const reporting_colors_t *colors);
 
 /**
  * @brief Processes a single file to find and report its duplicates.
  *
- * This helper function is called by ft_report_duplicates. It iterates through
- * the checksum array for a given file size, compares subsequent files with
- * the same hash, and calls compare_and_report_pair to verify and report
- * true duplicates. This simplifies the main reporting loop by encapsulating
- * the logic for handling a single file's potential duplicates.
+ * This helper function is called by ft_report_duplicates. It collects the
+ * verified duplicates of a file with ft_report_find_twins and prints them.
+ * This simplifies the main reporting loop by encapsulating the logic for
+ * handling a single file's potential duplicates.
  *
  * @param[in] conf The configuration structure containing reporting options.
  * @param[in] fsize The file size structure containing the checksum array.
@@ -73,33 +73,36 @@ static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize,
  */
 static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index, const reporting_colors_t *colors)
 {
-    unsigned char already_printed = 0;
-    apr_size_t j_index = 0;
+    const apr_array_header_t *twins = NULL;
+    const ft_file_t *file = fsize->chksum_array[index].file;
+    int twin_index = 0;
 
-    if (NULL == fsize->chksum_array[index].file) {
+    if (NULL == file) {
         return APR_SUCCESS;     /* Already processed as a duplicate */
     }
 
-    for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
-        if (NULL == fsize->chksum_array[j_index].file) {
-            continue;           /* Already reported as a twin of another file */
-        }
+    twins = ft_report_find_twins(conf, fsize, index);
+    if (twins->nelts < 2) {
+        return APR_SUCCESS;
+    }
 
-        /* If hashes match, perform a full comparison */
-        if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
-            if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
-                return APR_EGENERAL;
-            }
-        }
-        else {
-            /* Hashes are ordered, so we can break early */
-            break;
-        }
+    if (is_option_set(conf->mask, OPTION_SIZED)) {
+        const char *human_size = format_human_size(fsize->val, conf->pool);
+        printf("%sSize: %s%s\n", colors->size, human_size, colors->reset);
     }
+    format_and_print_duplicate(conf, file, colors);
+
+    for (twin_index = 1; twin_index < twins->nelts; twin_index++) {
+        const ft_file_t *twin = APR_ARRAY_IDX(twins, twin_index, ft_file_t *);
 
-    if (already_printed) {
-        printf("\n\n");
+        if (is_option_set(conf->mask, OPTION_DRY_RUN)) {
+            (void) fprintf(stderr, "Dry run: would report %s and %s as duplicates.\n", file->path, twin->path);
+        }
+        printf("%c", conf->sep);
+        format_and_print_duplicate(conf, twin, colors);
     }
+    printf("\n\n");
+    (void) fflush(stdout);
 
     return APR_SUCCESS;
 }
@@ -226,52 +229,83 @@ static void format_and_print_duplicate(ft_conf_t *conf, const ft_file_t *file, c
     }
 }
 
-static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index1, apr_size_t index2, unsigned char *already_printed, const reporting_colors_t *colors)
+/**
+ * @brief Tells whether two files can be verified to be identical right now.
+ * @param[in] conf The configuration structure.
+ * @param[in] file1 The first file to compare.
+ * @param[in] file2 The second file to compare.
+ * @param[in] size The size of both files.
+ * @return 1 if the comparison was carried out and the files are identical, else 0.
+ */
+static int is_verified_twin(ft_conf_t *conf, ft_file_t *file1, ft_file_t *file2, apr_off_t size)
 {
-    char *fpathi = NULL;
-    char *fpathj = NULL;
-    int return_value = 0;
+    char *fpath1 = NULL;
+    char *fpath2 = NULL;
+    int result = 0;
     apr_status_t status = APR_SUCCESS;
 
-    ft_file_t *file1 = fsize->chksum_array[index1].file;
-    ft_file_t *file2 = fsize->chksum_array[index2].file;
-
-    if (get_comparison_paths(conf, file1, file2, &fpathi, &fpathj) != APR_SUCCESS) {
+    if (get_comparison_paths(conf, file1, file2, &fpath1, &fpath2) != APR_SUCCESS) {
         DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        return APR_SUCCESS;     /* Continue processing other pairs */
+        return 0;
     }
 
-    status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);
-    cleanup_comparison_paths(conf, file1, file2, fpathi, fpathj);
+    status = filecmp(conf->pool, fpath1, fpath2, size, conf->excess_size, &result);
+    cleanup_comparison_paths(conf, file1, file2, fpath1, fpath2);
 
     if (status != APR_SUCCESS) {
         if (is_option_set(conf->mask, OPTION_VERBO)) {
             char errbuf[ERR_BUF_SIZE];
             (void) fprintf(stderr, "\nskipping %s and %s comparison because: %s\n", file1->path, file2->path, apr_strerror(status, errbuf, sizeof(errbuf)));
         }
-        return APR_SUCCESS;     /* Continue processing other pairs */
+        return 0;
     }
 
-    if (return_value == 0) {
-        if (is_option_set(conf->mask, OPTION_DRY_RUN)) {
-            (void) fprintf(stderr, "Dry run: would report %s and %s as duplicates.\n", file1->path, file2->path);
-        }
+    return 0 == result;
+}
+
+apr_array_header_t *ft_report_find_twins(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index)
+{
+    apr_array_header_t *twins = apr_array_make(conf->pool, 2, sizeof(ft_file_t *));
+    ft_file_t *candidate = NULL;
+    apr_size_t j_index = 0;
+    int nb_before = 0;
+    int missed = 0;
+
+    APR_ARRAY_PUSH(twins, ft_file_t *) = fsize->chksum_array[index].file;
+
+    do {
+        nb_before = twins->nelts;
+        missed = 0;
+
+        /* Hashes are ordered, so we can stop at the first other one */
+        for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
+            int twin_index = 0;
 
-        if (!*already_printed) {
-            if (is_option_set(conf->mask, OPTION_SIZED)) {
-                const char *human_size = format_human_size(fsize->val, conf->pool);
-                printf("%sSize: %s%s\n", colors->size, human_size, colors->reset);
+            if (0 != memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
+                break;
             }
-            format_and_print_duplicate(conf, file1, colors);
-            *already_printed = 1;
-        }
 
-        printf("%c", conf->sep);
-        format_and_print_duplicate(conf, file2, colors);
+            candidate = fsize->chksum_array[j_index].file;
+            if (NULL == candidate) {
+                continue;       /* Already known as a twin */
+            }
 
-        fsize->chksum_array[index2].file = NULL;        /* Mark as a twin */
-        (void) fflush(stdout);
-    }
+            /*
+             * One of the files may have become unreadable or different since
+             * it was hashed, that says nothing about the others.
+             */
+            while (twin_index < twins->nelts && !is_verified_twin(conf, APR_ARRAY_IDX(twins, twin_index, ft_file_t *), candidate, fsize->val)) {
+                twin_index++;
+            }
+            if (twin_index < twins->nelts) {
+                APR_ARRAY_PUSH(twins, ft_file_t *) = candidate;
+                fsize->chksum_array[j_index].file = NULL;       /* Mark as a twin */
+            }
+            else {
+                missed = 1;
+            }
+        }
+    } while (missed && twins->nelts > nb_before);
 
-    return APR_SUCCESS;
+    return twins;
 }
diff --git a/src/ft_report.h b/src/ft_report.h
index c1729fc..3d4775f 100644
--- a/src/ft_report.h
+++ b/src/ft_report.h
@@ -1,6 +1,8 @@
 #ifndef FT_REPORT_H
 #define FT_REPORT_H
 
+#include <apr_tables.h>
+
 #include "ft_types.h"
 
 /**
@@ -31,6 +33,19 @@ typedef struct reporting_colors_t
  */
 apr_status_t ft_report_duplicates(ft_conf_t *conf);
 
+/**
+ * @brief Collects the files verified to be identical to a file of the checksum array.
+ *
+ * The files found are taken out of the checksum array (their file is set to NULL).
+ *
+ * @param conf The configuration structure.
+ * @param fsize The files of one size, their checksums sorted.
+ * @param index The index of the file in the checksum array.
+ * @return An array of ft_file_t pointers, the file itself being the first.
+ * @ingroup Reporting
+ */
+apr_array_header_t *ft_report_find_twins(ft_conf_t *conf, ft_fsize_t *fsize, apr_size_t index);
+
 apr_status_t get_comparison_paths(ft_conf_t *conf, ft_file_t *file1, ft_file_t *file2, char **path1, char **path2);
 
 #endif /* FT_REPORT_H */
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 8dfcbf7..4bffba7 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -76,47 +76,6 @@ static json_t *create_file_json_object(ft_file_t *file, ft_conf_t *conf)
     return obj;
 }
 
-static void cleanup_comparison_paths(ft_conf_t *conf, ft_file_t *file1, ft_file_t *file2, char *path1, char *path2)
-{
-    if (is_option_set(conf->mask, OPTION_UNTAR)) {
-        if (file1->subpath) {
-            (void) apr_file_remove(path1, conf->pool);
-        }
-        if (file2->subpath) {
-            (void) apr_file_remove(path2, conf->pool);
-        }
-    }
-}
-
-static apr_status_t perform_file_comparison(ft_conf_t *conf, ft_chksum_t *chksum1, ft_chksum_t *chksum2, apr_off_t file_size, int *result)
-{
-    char *fpath1 = NULL;
-    char *fpath2 = NULL;
-    apr_status_t status = APR_SUCCESS;
-
-    ft_file_t *file1 = chksum1->file;
-    ft_file_t *file2 = chksum2->file;
-
-    if (get_comparison_paths(conf, file1, file2, &fpath1, &fpath2) != APR_SUCCESS) {
-        DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        *result = 1;            /* Treat comparison error as "not a duplicate" */
-        return APR_SUCCESS;
-    }
-
-    status = filecmp(conf->pool, fpath1, fpath2, file_size, conf->excess_size, result);
-    cleanup_comparison_paths(conf, file1, file2, fpath1, fpath2);
-
-    if (status != APR_SUCCESS) {
-        if (is_option_set(conf->mask, OPTION_VERBO)) {
-            char errbuf[ERR_BUF_SIZE];
-            (void) fprintf(stderr, "\nskipping %s and %s comparison because: %s\n", file1->path, file2->path, apr_strerror(status, errbuf, sizeof(errbuf)));
-        }
-        *result = 1;            /* Treat comparison error as "not a duplicate" */
-    }
-
-    return APR_SUCCESS;
-}
-
 static json_t *create_duplicate_set_json(ft_conf_t *conf, ft_chksum_t *chksum, apr_off_t size)
 {
     json_t *set_obj = json_object();
@@ -133,44 +92,23 @@ static json_t *create_duplicate_set_json(ft_conf_t *conf, ft_chksum_t *chksum, a
 
 static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsize, json_t *root_array)
 {
-    apr_status_t status = APR_SUCCESS;
-    int result = 0;
-
     for (size_t i = 0; i < fsize->nb_files; i++) {
         if (fsize->chksum_array[i].file == NULL) {
-            continue;
+            continue;           /* Already reported as a twin of another file */
         }
 
-        json_t *current_set_obj = NULL;
-        json_t *duplicates_array = NULL;
-
-        for (size_t j = i + 1; j < fsize->nb_files; j++) {
-            if (fsize->chksum_array[j].file == NULL) {
-                continue;       /* Already reported as a twin of another file */
-            }
-            if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
-                status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
-                if (status != APR_SUCCESS) {
-                    return status;
-                }
-
-                if (result == 0) {
-                    if (current_set_obj == NULL) {
-                        current_set_obj = create_duplicate_set_json(conf, &fsize->chksum_array[i], fsize->val);
-                        duplicates_array = json_object_get(current_set_obj, "duplicates");
-                    }
-                    json_array_append_new(duplicates_array, create_file_json_object(fsize->chksum_array[j].file, conf));
-                    fsize->chksum_array[j].file = NULL;
-                }
-            }
-            else {
-                break;
-            }
+        const apr_array_header_t *twins = ft_report_find_twins(conf, fsize, i);
+        if (twins->nelts < 2) {
+            continue;
         }
 
-        if (current_set_obj != NULL) {
-            json_array_append_new(root_array, current_set_obj);
+        json_t *current_set_obj = create_duplicate_set_json(conf, &fsize->chksum_array[i], fsize->val);
+        json_t *duplicates_array = json_object_get(current_set_obj, "duplicates");
+
+        for (int twin_index = 1; twin_index < twins->nelts; twin_index++) {
+            json_array_append_new(duplicates_array, create_file_json_object(APR_ARRAY_IDX(twins, twin_index, ft_file_t *), conf));
         }
+        json_array_append_new(root_array, current_set_obj);
     }
     return APR_SUCCESS;
 }
-- 
2.43.0


From 2090c62f33afe01c7eb3de6a86641c87ee99a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:40 +0000
Subject: [PATCH 22/41] fix: a report that could not be written to stdout is a
 failure

---
 src/ft_image.c       | 15 ++++++++++-----
 src/ft_report.c      |  5 +++++
 src/ft_report_json.c |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ft_image.c b/src/ft_image.c
index a33fee4..d2e3a9a 100644
--- a/src/ft_image.c
+++ b/src/ft_image.c
@@ -97,7 +97,7 @@ static const int MAX_PERCENTAGE = 100;
 
 static void initialize_puzzle_context(PuzzleContext * context);
 static apr_status_t compute_image_vectors(ft_conf_t *conf, PuzzleContext * context);
-static void compare_image_vectors(ft_conf_t *conf, PuzzleContext * context);
+static apr_status_t compare_image_vectors(ft_conf_t *conf, PuzzleContext * context);
 
 apr_status_t ft_image_twin_report(ft_conf_t *conf)
 {
@@ -112,11 +112,11 @@ apr_status_t ft_image_twin_report(ft_conf_t *conf)
         return status;
     }
 
-    compare_image_vectors(conf, &context);
+    status = compare_image_vectors(conf, &context);
 
     puzzle_free_context(&context);
 
-    return APR_SUCCESS;
+    return status;
 }
 
 static void initialize_puzzle_context(PuzzleContext * context)
@@ -186,7 +186,7 @@ static apr_status_t compute_image_vectors(ft_conf_t *conf, PuzzleContext * conte
     return APR_SUCCESS;
 }
 
-static void compare_image_vectors(ft_conf_t *conf, PuzzleContext * context)
+static apr_status_t compare_image_vectors(ft_conf_t *conf, PuzzleContext * context)
 {
     unsigned long nb_cmp = napr_heap_size(conf->heap) * (napr_heap_size(conf->heap) - 1) / 2;
     unsigned long cnt_cmp = 0;
@@ -235,5 +235,10 @@ static void compare_image_vectors(ft_conf_t *conf, PuzzleContext * context)
     }
 
     /* Ensure all output is flushed before returning */
-    (void) fflush(stdout);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        (void) fprintf(stderr, "Error: failed to write the report to stdout.\n");
+        return APR_EGENERAL;
+    }
+
+    return APR_SUCCESS;
 }
diff --git a/src/ft_report.c b/src/ft_report.c
index d93c8cd..842b3e8 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -149,6 +149,11 @@ apr_status_t ft_report_duplicates(ft_conf_t *conf)
         }
     }
 
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        (void) fprintf(stderr, "Error: failed to write the report to stdout.\n");
+        return APR_EGENERAL;
+    }
+
     return APR_SUCCESS;
 }
 
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 4bffba7..6a7e9a9 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -156,7 +156,7 @@ apr_status_t ft_report_json(ft_conf_t *conf)
         status = APR_EGENERAL;
     }
     printf("\n");
-    if (fflush(stdout) != 0) {
+    if (fflush(stdout) != 0 || ferror(stdout)) {
         perror("Error flushing stdout");
         status = APR_EGENERAL;
     }
-- 
2.43.0


From 58d9c779cff5540456b4765e32f2c09f2ed7ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:04 +0000
Subject: [PATCH 23/41] fix: archive extraction leaves nothing behind when it
 fails and keeps the extracted file private

Descriptors, handles and the temporary file leaked on error paths, the umask was
left changed (always when mkstemp failed, sometimes with several threads), the
file got the mode recorded in the archive, a link member became a link in /tmp,
and errors when finishing the file went unnoticed.
---
 src/ft_archive.c | 104 +++++++++++++++++++----------------------------
 1 file changed, 41 insertions(+), 63 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..0899a72 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -21,7 +21,8 @@
 
 #include "ft_archive.h"
 
-#include <sys/stat.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 
 #include <apr_file_io.h>
@@ -41,33 +42,46 @@
  */
 static const size_t ARCHIVE_BLOCK_SIZE = 10240;
 
-static int copy_data(struct archive *archive_read, struct archive *archive_write)
+/**
+ * @brief Extracts the current entry of an archive to a temporary file.
+ * @param[in] archive_handle The archive being read.
+ * @param[in] entry The entry to extract.
+ * @param[in] file The archive and the path in it, for error messages.
+ * @param[in] pool The pool to allocate the name from.
+ * @return The name of the temporary file, or NULL if the entry could not be extracted.
+ */
+static char *extract_entry(struct archive *archive_handle, struct archive_entry *entry, const ft_file_t *file, apr_pool_t *pool)
 {
-    const void *buff = NULL;
-    off_t offset = 0;
-    size_t size = 0;
+    char *tmpfile = NULL;
+    int tmp_fd = -1;
+    int result_value = ARCHIVE_OK;
 
-    for (;;) {
-        int result_value = archive_read_data_block(archive_read, &buff, &size, &offset);
-        if (result_value == ARCHIVE_EOF) {
-            return ARCHIVE_OK;
-        }
-        if (result_value != ARCHIVE_OK) {
-            DEBUG_ERR("error calling archive_read_data_block(): %s", archive_error_string(archive_read));
-            return result_value;
-        }
-        result_value = (int) archive_write_data_block(archive_write, buff, size, offset);
-        if (result_value != ARCHIVE_OK) {
-            DEBUG_ERR("error calling archive_write_data_block(): %s", archive_error_string(archive_write));
-            return result_value;
-        }
+    if (AE_IFREG != archive_entry_filetype(entry) || NULL != archive_entry_hardlink(entry)) {
+        DEBUG_ERR("subpath [%s] of archive [%s] is not a regular file", file->subpath, file->path);
+        return NULL;
     }
+
+    /* mkstemp creates the file for its owner only, whatever the umask is. */
+    tmpfile = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
+    tmp_fd = mkstemp(tmpfile);
+    if (tmp_fd < 0) {
+        DEBUG_ERR("error creating tmpfile %s", tmpfile);
+        return NULL;
+    }
+
+    result_value = archive_read_data_into_fd(archive_handle, tmp_fd);
+    if (close(tmp_fd) != 0 || result_value != ARCHIVE_OK) {
+        DEBUG_ERR("error while copying data from archive (%s): %s", file->path, archive_error_string(archive_handle));
+        (void) apr_file_remove(tmpfile, pool);
+        return NULL;
+    }
+
+    return tmpfile;
 }
 
 char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
 {
     struct archive *archive_handle = NULL;
-    struct archive *ext = NULL;
     struct archive_entry *entry = NULL;
     char *tmpfile = NULL;
     int result_value = 0;
@@ -80,22 +94,19 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
+        archive_read_free(archive_handle);
         return NULL;
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
-        return NULL;
-    }
-
-    ext = archive_write_disk_new();
-    if (NULL == ext) {
-        DEBUG_ERR("error calling archive_write_disk_new()");
+        archive_read_free(archive_handle);
         return NULL;
     }
 
@@ -103,52 +114,19 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
-            return NULL;
+            break;
         }
         if (result_value != ARCHIVE_OK) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-            return NULL;
+            break;
         }
 
-        if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
-            mode_t current_mode = umask(S_IRWXG | S_IRWXO);
-
-            /*
-             * All I want is only a temporary filename, but gcc outputs me an
-             * ugly warning if I use tempnam...
-             * tmpfile = tempnam("/tmp/", "ftwin");
-             */
-            tmpfile = apr_pstrdup(pool, "/tmp/ftwinXXXXXX");
-            result_value = mkstemp(tmpfile);
-            if (result_value < 0) {
-                DEBUG_ERR("error creating tmpfile %s", tmpfile);
-                return NULL;
-            }
-            umask(current_mode);
-            close(result_value);
-
-            archive_entry_copy_pathname(entry, tmpfile);
-
-            result_value = archive_write_header(ext, entry);
-            if (result_value == ARCHIVE_OK) {
-                result_value = copy_data(archive_handle, ext);
-                if (result_value != ARCHIVE_OK) {
-                    DEBUG_ERR("error while copying data from archive (%s)", file->path);
-                    (void) apr_file_remove(tmpfile, pool);
-                    return NULL;
-                }
-            }
-            else {
-                DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-                (void) apr_file_remove(tmpfile, pool);
-                return NULL;
-            }
-
+        if (NULL != archive_entry_pathname(entry) && !strcmp(file->subpath, archive_entry_pathname(entry))) {
+            tmpfile = extract_entry(archive_handle, entry, file, pool);
             break;
         }
     }
 
-    archive_write_free(ext);
     archive_read_free(archive_handle);
 
     return tmpfile;
-- 
2.43.0


From 925b5241eb0c944a6033d4aff1d25ec899773e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:28 +0000
Subject: [PATCH 24/41] fix: let the closest .gitignore decide, as git does,
 instead of the outermost one

---
 src/ft_ignore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index f4dd915..a477e46 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -400,8 +400,8 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
         return FT_IGNORE_MATCH_NONE;
     }
 
-    /* Walk up the context hierarchy */
-    for (current_ctx = ctx; current_ctx != NULL; current_ctx = current_ctx->parent) {
+    /* Walk up the context hierarchy: the closest context that has something to say about the path decides */
+    for (current_ctx = ctx; current_ctx != NULL && result == FT_IGNORE_MATCH_NONE; current_ctx = current_ctx->parent) {
         int index = 0;
 
         /* Calculate relative path from this context's base_dir */
-- 
2.43.0


From 30dfb73e05a2c25f520535475f72ef2a289c4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:15 +0000
Subject: [PATCH 25/41] fix: a long .gitignore line does not overflow the
 buffer its regex is built in

---
 src/ft_ignore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index a477e46..91ab8ae 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -273,7 +273,8 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    /* No glob character becomes more than 5 regex characters, and the anchors take at most 10 more. */
+    char *result = apr_pcalloc(pool, strlen(pattern) * 5 + 16);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
-- 
2.43.0


From 1d0506e522e7fbb76d63f444115d2204fa0b2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:56 +0000
Subject: [PATCH 26/41] fix: a name repeated in the ignore list no longer makes
 the table of names grow until the program crashes

---
 src/ft_config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..2024cc4 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,10 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        /* The table does not look for doubles itself, and grows without end if a name is entered often enough. */
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From 67bdd3b0e4ce586365ad475248e6b08ff3da6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:56 +0000
Subject: [PATCH 27/41] fix: a user in more than 256 groups can scan files

---
 src/ft_config.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 2024cc4..fc1181b 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -100,17 +100,19 @@ static pcre *ft_pcre_compile(const char *regex, int caseless, apr_pool_t *pool)
     return result;
 }
 
-static const int MAX_GIDS = 256;
-
 static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_pool_t *pool)
 {
-    gid_t list[MAX_GIDS];
+    gid_t *list = NULL;
     apr_uint32_t hash_value = 0;
     int nb_gid = 0;
+    int max_gid = getgroups(0, NULL);
 
-    memset(list, 0, sizeof(list));
-    nb_gid = getgroups((int) (sizeof(list) / sizeof(gid_t)), list);
-    if (nb_gid < 0) {
+    if (max_gid >= 0) {
+        /* One more for the effective group ID. */
+        list = apr_pcalloc(pool, ((apr_size_t) max_gid + 1) * sizeof(gid_t));
+        nb_gid = (max_gid > 0) ? getgroups(max_gid, list) : 0;
+    }
+    if (max_gid < 0 || nb_gid < 0) {
         DEBUG_ERR("error calling getgroups()");
         return APR_EGENERAL;
     }
@@ -120,10 +122,8 @@ static apr_status_t fill_gids_ht(const char *username, napr_hash_t *gids, apr_po
      * is included in the returned list.  (Thus, an application should also
      * call getegid(2) and add or remove the resulting value.)
      */
-    if (nb_gid < (sizeof(list) / sizeof(gid_t))) {
-        list[nb_gid] = getegid();
-        nb_gid++;
-    }
+    list[nb_gid] = getegid();
+    nb_gid++;
 
     for (int idx = 0; idx < nb_gid; idx++) {
         ft_gid_t *gid = napr_hash_search(gids, &(list[idx]), sizeof(gid_t), &hash_value);
-- 
2.43.0


From 68506ed88787c541cb65fb20c2ddc64fa2eca888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:56 +0000
Subject: [PATCH 28/41] fix: a user without an entry in the user database can
 scan files

---
 src/ft_config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index fc1181b..908b712 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -632,10 +632,11 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         return status;
     }
 
+    /* Not every user ID has a name (in a container, for example), and nothing depends on it. */
     status = apr_uid_name_get(&(conf->username), conf->userid, conf->pool);
     if (APR_SUCCESS != status) {
         DEBUG_ERR("error calling apr_uid_name_get: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-        return status;
+        conf->username = NULL;
     }
 
     status = fill_gids_ht(conf->username, conf->gids, conf->pool);
-- 
2.43.0


From f34ec26ae10f6f9104d2e08422e28f0b4819e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 29/41] fix: a whitelist no longer keeps images and files below
 subdirectories from being found

---
 src/ft_traverse.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index d7f573a..ebfe645 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -89,11 +89,17 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
+static int is_whitelisted(const char *filename, const ft_conf_t *conf)
+{
+    int ovector[MATCH_VECTOR_SIZE];
+
+    return NULL == conf->wl_regex || pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0;
+}
+
 static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
@@ -177,6 +183,10 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
+        /* The whitelist selects among the files found in directories, not the directories that lead to them. */
+        if (NULL != stats && !is_whitelisted(filename, conf)) {
+            return APR_SUCCESS;
+        }
         return process_file(filename, &finfo, conf);
     }
 
-- 
2.43.0


From 358825dac916fb76f3dfe513568cbabe6d173f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 30/41] fix: the default ignore patterns also apply below
 relative arguments

---
 src/ft_traverse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index ebfe645..6fd0926 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -205,6 +205,12 @@ apr_status_t ft_traverse_path(ft_conf_t *conf, const char *path)
         return status;
     }
 
+    /* The default patterns speak of what is found below the argument, absolute or not. */
+    if (NULL != conf->global_ignores) {
+        conf->global_ignores->base_dir = path;
+        conf->global_ignores->base_dir_len = strlen(path);
+    }
+
     status = traverse_recursive(conf, path, gc_pool, NULL, conf->global_ignores);
 
     apr_pool_destroy(gc_pool);
-- 
2.43.0


From 5ab8b45936e803e06e6928164b115b8f49bd9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 31/41] fix: an ignore pattern with a slash in the middle only
 matches relative to its .gitignore

---
 src/ft_ignore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 91ab8ae..0a2de7a 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -92,6 +92,12 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
+    /* A slash in the middle also anchors the pattern to the directory of its file */
+    const char *slash = strchr(pattern_cursor, '/');
+    if (NULL != slash && slash < end) {
+        *starts_with_slash = 1;
+    }
+
     return pattern_cursor;
 }
 
-- 
2.43.0


From 9767fd02524ac8717c8ed4c5c33be43f5a3cf745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 32/41] fix: a directory-only ignore pattern does not decide
 about the directories below

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 0a2de7a..88c3da3 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -296,7 +296,7 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
     /* Set end anchor */
     if (*flags & FT_IGNORE_DIR_ONLY) {
         /* Match a directory with an optional trailing slash */
-        append_pcre_sequence(&result_cursor, "(/|$)");
+        append_pcre_sequence(&result_cursor, "/?$");
     }
     else {
         /* Match the end of the string */
-- 
2.43.0


From 06a3c2a7e8d109f510b8fa256916d1d898541775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 33/41] fix: spaces at the end of an ignore pattern are not
 part of it

---
 src/ft_ignore.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 88c3da3..e29a734 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -322,7 +322,8 @@ ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_contex
 
 apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
 {
-    const char *trimmed = NULL;
+    char *trimmed = NULL;
+    apr_size_t len = 0;
     unsigned int flags = 0;
     char *regex_str = NULL;
     pcre *regex = NULL;
@@ -331,9 +332,13 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     ft_ignore_pattern_t *pattern = NULL;
 
     /* Trim whitespace */
-    trimmed = pattern_str;
-    while (isspace(*trimmed)) {
-        trimmed++;
+    while (isspace((unsigned char) *pattern_str)) {
+        pattern_str++;
+    }
+    trimmed = apr_pstrdup(ctx->pool, pattern_str);
+    len = strlen(trimmed);
+    while (len > 0 && trimmed[len - 1] == ' ' && (len < 2 || trimmed[len - 2] != '\\')) {
+        trimmed[--len] = '\0';
     }
 
     /* Skip empty lines and comments */
@@ -354,7 +359,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     /* Create pattern struct */
     pattern = apr_pcalloc(ctx->pool, sizeof(ft_ignore_pattern_t));
     pattern->regex = regex;
-    pattern->pattern_str = apr_pstrdup(ctx->pool, trimmed);
+    pattern->pattern_str = trimmed;
     pattern->flags = flags;
 
     /* Add to context */
-- 
2.43.0


From d0302406b5923e6792b304fb1f4f38e00da57394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:26 +0000
Subject: [PATCH 34/41] fix: a file that shrinks while it is mapped is neither
 hashed nor compared

What a file loses while it is mapped reads as zeros up to the end of the
page: such files were reported as duplicates of files with zeros there.
Check the size again once the mapping has been read.
---
 src/ft_file.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 02800b9..2f41854 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,22 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+/**
+ * @brief Checks that an open file has the size recorded when it was found.
+ */
+static apr_status_t check_size(apr_file_t *file_descriptor, const char *filename, apr_off_t size)
+{
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_info_get(&finfo, APR_FINFO_SIZE, file_descriptor);
+
+    if (APR_SUCCESS == status && finfo.size != size) {
+        DEBUG_ERR("the size of %s has changed, skipping", filename);
+        status = APR_EMISMATCH;
+    }
+
+    return status;
+}
+
 /**
  * @brief Opens a file for reading, provided that it still has the size recorded when it was found.
  *
@@ -51,18 +67,13 @@ static const size_t HUGE_LEN = 64L * 1024L;
  */
 static apr_status_t open_unchanged_file(apr_file_t **file_descriptor, const char *filename, apr_off_t size, apr_pool_t *pool)
 {
-    apr_finfo_t finfo;
     apr_status_t status = apr_file_open(file_descriptor, filename, APR_READ | APR_BINARY, APR_OS_DEFAULT, pool);
 
     if (APR_SUCCESS != status) {
         return status;
     }
 
-    status = apr_file_info_get(&finfo, APR_FINFO_SIZE, *file_descriptor);
-    if (APR_SUCCESS == status && finfo.size != size) {
-        DEBUG_ERR("the size of %s has changed, skipping", filename);
-        status = APR_EMISMATCH;
-    }
+    status = check_size(*file_descriptor, filename, size);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(*file_descriptor);
     }
@@ -77,6 +88,7 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
     apr_mmap_t *memory_map = NULL;
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status = APR_SUCCESS;
+    apr_status_t size_status = APR_SUCCESS;
 
     status = open_unchanged_file(&file_descriptor, filename, size, gc_pool);
     if (APR_SUCCESS != status) {
@@ -90,6 +102,8 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
     }
 
     *hash_out = XXH3_128bits(memory_map->mm, (size_t) size);
+    /* What a file that shrank meanwhile has lost reads as zeros */
+    size_status = check_size(file_descriptor, filename, size);
 
     status = apr_mmap_delete(memory_map);
     if (APR_SUCCESS != status) {
@@ -103,7 +117,7 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
         return status;
     }
 
-    return APR_SUCCESS;
+    return size_status;
 }
 
 static apr_status_t checksum_big_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
@@ -188,6 +202,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     apr_mmap_t *mm2 = NULL;
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status = APR_SUCCESS;
+    apr_status_t size_status = APR_SUCCESS;
 
     if (0 == size) {
         *result_out = 0;
@@ -221,6 +236,11 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     }
 
     *result_out = memcmp(mm1->mm, mm2->mm, size);
+    /* What a file that shrank meanwhile has lost reads as zeros */
+    size_status = check_size(fd1, fname1, size);
+    if (APR_SUCCESS == size_status) {
+        size_status = check_size(fd2, fname2, size);
+    }
 
     status = apr_mmap_delete(mm2);
     if (APR_SUCCESS != status) {
@@ -250,7 +270,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    return APR_SUCCESS;
+    return size_status;
 }
 
 static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char *fname2, apr_off_t size, int *result_out)
-- 
2.43.0


From a70c05bdd641167ad91792b08ddbba5bf122e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:26 +0000
Subject: [PATCH 35/41] fix: the first write transaction after opening confirms
 the meta page that was found

A commit that failed or was interrupted in an earlier process can leave
one meta page on disk and another in the page cache. Pages the one on disk
still needs were then reused, and a power cut brought back a broken tree.
---
 src/napr_db.c          | 34 ++++++++++++++++++++++++++++++++++
 src/napr_db_internal.h |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/napr_db.c b/src/napr_db.c
index bf19b02..626b8bc 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -336,6 +336,7 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     if (last_pgno >= (pgno_t) env->file_size / PAGE_SIZE || last_pgno >= env->mapsize / PAGE_SIZE || env->live_meta->root > last_pgno || env->live_meta->free_db_root > last_pgno) {
         return APR_EINVAL;
     }
+    env->unconfirmed = 1;
     return APR_SUCCESS;
 }
 
@@ -556,6 +557,8 @@ apr_status_t db_get_oldest_reader_txnid(napr_db_env_t *env, txnid_t *oldest_txni
  * Transaction API implementation
  */
 
+static apr_status_t confirm_meta_page(napr_db_env_t *env);
+
 /**
  * @brief Begin a transaction.
  *
@@ -604,6 +607,14 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             apr_pool_destroy(txn_pool);
             return APR_EGENERAL;
         }
+        if (env->unconfirmed) {
+            status = confirm_meta_page(env);
+            if (status != APR_SUCCESS) {
+                db_writer_unlock(env);
+                apr_pool_destroy(txn_pool);
+                return status;
+            }
+        }
     }
 
     /* Initialize transaction */
@@ -1229,6 +1240,29 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Make sure that the disk agrees with what was found when the database was opened.
+ *
+ * A commit that failed or was interrupted in an earlier process may have left one meta page on
+ * disk and another in memory. Before any page is reused, commit what was found again.
+ *
+ * @param env Database environment, with the writer lock held
+ */
+static apr_status_t confirm_meta_page(napr_db_env_t *env)
+{
+    napr_db_txn_t txn = {.env = env,.txnid = env->live_meta->txnid + 1,.new_last_pgno = env->live_meta->last_pgno };
+    DB_CommitPgnos pgnos = {.new_root_pgno = env->live_meta->root,.new_free_db_root_pgno = env->live_meta->free_db_root };
+    apr_status_t status = apr_file_sync(env->file);
+
+    if (status == APR_SUCCESS) {
+        status = commit_meta_page(&txn, pgnos);
+    }
+    if (status == APR_SUCCESS) {
+        env->unconfirmed = 0;
+    }
+    return status;
+}
+
 apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 1d6f304..b1d1597 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -294,6 +294,7 @@ typedef struct __attribute__((packed))
          DB_MetaPage *meta1;    /**< Pointer to Meta Page 1 in mmap */
          DB_MetaPage *live_meta;/**< Pointer to current active meta page */
          int failed;            /**< Set when the on-disk meta pages are unknown: no more writers */
+         int unconfirmed;       /**< Set until the meta page found on opening is known to be on disk */
 
          /* Synchronization - SWMR model */
          apr_thread_mutex_t *writer_thread_mutex;
-- 
2.43.0


From 29ad5820c1e90bbf2ee97a3cdc454b84733ea64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:27 +0000
Subject: [PATCH 36/41] fix: ignore patterns must also match names that contain
 a newline

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index e29a734..ebd4d08 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -350,7 +350,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOTALL | PCRE_DOLLAR_ENDONLY, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From c576b87777dc4470837977d846d3794153356828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:29 +0000
Subject: [PATCH 37/41] fix: a JSON report that has to leave out a path must
 not end with success

---
 src/ft_report_json.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 6a7e9a9..92e6717 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -61,19 +61,24 @@ static char *ft_hash_to_hex(ft_hash_t hash, apr_pool_t *pool)
     return apr_psprintf(pool, "%016" APR_UINT64_T_HEX_FMT "%016" APR_UINT64_T_HEX_FMT, hash.high64, hash.low64);
 }
 
-/* Helper to create a JSON object for a file entry */
-static json_t *create_file_json_object(ft_file_t *file, ft_conf_t *conf)
+/* Helper to append a JSON object for a file entry. APR_INCOMPLETE tells that its path is not UTF-8, which JSON cannot express. */
+static apr_status_t append_file_json_object(json_t *duplicates_array, ft_file_t *file, ft_conf_t *conf)
 {
+    apr_status_t status = APR_SUCCESS;
     json_t *obj = json_object();
     const char *mtime_str = ft_format_time_iso8601_utc(file->mtime, conf->pool);
 
-    json_object_set_new(obj, "path", json_string(file->path));
+    if (json_object_set_new(obj, "path", json_string(file->path)) != 0) {
+        (void) fprintf(stderr, "Error: the path %s cannot be written as JSON.\n", file->path);
+        status = APR_INCOMPLETE;
+    }
     if (is_option_set(conf->mask, OPTION_UNTAR)) {
         json_object_set_new(obj, "archive_subpath", file->subpath ? json_string(file->subpath) : json_null());
     }
     json_object_set_new(obj, "mtime_utc", json_string(mtime_str));
     json_object_set_new(obj, "prioritized", json_boolean(file->prioritized));
-    return obj;
+    json_array_append_new(duplicates_array, obj);
+    return status;
 }
 
 static json_t *create_duplicate_set_json(ft_conf_t *conf, ft_chksum_t *chksum, apr_off_t size)
@@ -85,13 +90,14 @@ static json_t *create_duplicate_set_json(ft_conf_t *conf, ft_chksum_t *chksum, a
     json_object_set_new(set_obj, "size_bytes", json_integer(size));
     json_object_set_new(set_obj, "hash_xxh128", json_string(hex_hash));
     json_object_set_new(set_obj, "duplicates", duplicates_array);
-    json_array_append_new(duplicates_array, create_file_json_object(chksum->file, conf));
 
     return set_obj;
 }
 
 static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsize, json_t *root_array)
 {
+    apr_status_t status = APR_SUCCESS;
+
     for (size_t i = 0; i < fsize->nb_files; i++) {
         if (fsize->chksum_array[i].file == NULL) {
             continue;           /* Already reported as a twin of another file */
@@ -105,12 +111,14 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
         json_t *current_set_obj = create_duplicate_set_json(conf, &fsize->chksum_array[i], fsize->val);
         json_t *duplicates_array = json_object_get(current_set_obj, "duplicates");
 
-        for (int twin_index = 1; twin_index < twins->nelts; twin_index++) {
-            json_array_append_new(duplicates_array, create_file_json_object(APR_ARRAY_IDX(twins, twin_index, ft_file_t *), conf));
+        for (int twin_index = 0; twin_index < twins->nelts; twin_index++) {
+            if (append_file_json_object(duplicates_array, APR_ARRAY_IDX(twins, twin_index, ft_file_t *), conf) != APR_SUCCESS) {
+                status = APR_INCOMPLETE;
+            }
         }
         json_array_append_new(root_array, current_set_obj);
     }
-    return APR_SUCCESS;
+    return status;
 }
 
 static apr_status_t process_file_group(ft_conf_t *conf, ft_file_t *file, json_t *root_array, apr_off_t *old_size)
@@ -137,6 +145,7 @@ apr_status_t ft_report_json(ft_conf_t *conf)
     apr_off_t old_size = -1;
     ft_file_t *file = NULL;
     apr_status_t status = APR_SUCCESS;
+    apr_status_t group_status = APR_SUCCESS;
     json_t *root_array = json_array();
 
     if (!root_array) {
@@ -144,10 +153,13 @@ apr_status_t ft_report_json(ft_conf_t *conf)
     }
 
     while ((file = napr_heap_extract(conf->heap)) != NULL) {
-        status = process_file_group(conf, file, root_array, &old_size);
-        if (status != APR_SUCCESS) {
+        group_status = process_file_group(conf, file, root_array, &old_size);
+        if (group_status == APR_INCOMPLETE) {
+            status = APR_EGENERAL;      /* The rest of the report is still worth having */
+        }
+        else if (group_status != APR_SUCCESS) {
             json_decref(root_array);
-            return status;
+            return group_status;
         }
     }
 
-- 
2.43.0


From 659a8eebbd65488e6137340bbde2c98bc689af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:28 +0000
Subject: [PATCH 38/41] fix: an unknown option or a missing option value must
 not be ignored

---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 908b712..ca6f1e1 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -621,6 +621,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (APR_EOF != status) {
+        /* An unknown option or a missing value, which apr_getopt_long has reported */
+        print_usage_and_exit(argv[0], opt_option, NULL, NULL);
+        return APR_EGENERAL;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From b5e5127e4a0d084f09bbad926c004385acca1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:24 +0000
Subject: [PATCH 39/41] fix: a failed insertion into a heap must not lose its
 elements or keep its lock

When the array of a heap cannot grow, napr_heap_insert() dropped the array
with all elements in it, and napr_heap_insert_r() returned with the mutex
locked, which blocked every other thread for good.
---
 src/napr_heap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/napr_heap.c b/src/napr_heap.c
index 2e1e723..4cd0dbd 100644
--- a/src/napr_heap.c
+++ b/src/napr_heap.c
@@ -106,7 +106,6 @@ int napr_heap_insert(napr_heap_t *heap, void *datum)
             heap->max = new_max;
         }
         else {
-            heap->tree = NULL;
             DEBUG_ERR("allocation failed");
             return -1;
         }
@@ -237,9 +236,12 @@ int napr_heap_insert_r(napr_heap_t *heap, void *datum)
     if (1 == heap->mutex_set) {
         return_code = apr_thread_mutex_lock(heap->mutex);
         if (APR_SUCCESS == return_code) {
+            int unlock_code = 0;
+
             return_code = napr_heap_insert(heap, datum);
+            unlock_code = apr_thread_mutex_unlock(heap->mutex);
             if (0 == return_code) {
-                return_code = apr_thread_mutex_unlock(heap->mutex);
+                return_code = unlock_code;
             }
         }
         else {
-- 
2.43.0


From 0caf174b7ec1ec5cab5254a12daaf34c272e0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 40/41] fix: a database that is closed and opened again through
 the same handle must accept writers

The mark of a commit that could not be taken back stayed on the handle, although
opening settles which state the file is in.
---
 src/napr_db.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/napr_db.c b/src/napr_db.c
index 626b8bc..ce7e395 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -382,6 +382,7 @@ apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int
     }
 
     env->flags = flags;
+    env->failed = 0;
 
     status = db_file_open(env, path, &is_new_file);
     if (status != APR_SUCCESS) {
-- 
2.43.0


From 608bf0747a7767588f4295339c707af5102e5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:33 +0000
Subject: [PATCH 41/41] fix: an escaped letter in an ignore pattern stands for
 itself

"\d" or "[\w]" in an ignore file was handed on to PCRE, where an escaped letter is a
class or a control character; in an ignore file it is just that letter.
---
 src/ft_ignore.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index ebd4d08..c9d2602 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -212,8 +212,11 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
             (*pattern_cursor)++;
+            /* An escaped letter or digit stands for itself, not for a class of PCRE */
+            if (!isalnum((unsigned char) **pattern_cursor)) {
+                *cursor++ = '\\';
+            }
         }
         *cursor++ = *(*pattern_cursor)++;
     }
@@ -246,9 +249,11 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
         }
 
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            /* Handle escaped characters */
+            /* Handle escaped characters: a letter or digit stands for itself, not for a class of PCRE */
             char *cursor = *result_cursor;
-            *cursor++ = '\\';
+            if (!isalnum((unsigned char) *(*pattern_cursor + 1))) {
+                *cursor++ = '\\';
+            }
             *cursor++ = *(*pattern_cursor + 1);
             *result_cursor = cursor;
             *pattern_cursor += 2;
-- 
2.43.0

