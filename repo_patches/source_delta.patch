From 5aff4e637b090713be965d1408820a6e1aab125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 01/43] fix: rbtree_delete_fixup must stop at the root and
 recolor a red left sibling

---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From 94405e659b9b9464ca4c3885d232e3fbef66e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 02/43] fix: uuid parsing leaves the destination unchanged on
 failure

---
 src/uuid/rcpr_uuid_parse_raw_string.c | 34 ++++++++++++++-------------
 src/uuid/rcpr_uuid_parse_string.c     | 34 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..b37d194 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    rcpr_uuid tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -65,44 +66,45 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (36 != length) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..f110a47 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    rcpr_uuid tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -57,47 +58,48 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (NULL == str) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* finally, if the string is not empty, this fails. */
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From f5b8ff922f3c8cfdb7443c5a7d372430112dbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 03/43] fix: a trigger signaled or registered from within its
 callback must not lose it

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..4d92680 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,16 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
             /* reset the trigger. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener, which may signal or register again. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From 3ddc521c577c897582c82df9b514cef391da7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 04/43] fix: bump allocator must refuse requests that overflow
 or pass the region's end

The end offset was computed with wrap-around, so a huge request succeeded
with a block outside of the region and moved the next block back over
earlier ones; and a failed request left the caller's pointer alone, although
allocator_allocate promises to set it to NULL.
---
 src/allocator/bump_allocator_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..1095638 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -185,8 +185,9 @@ static status bump_allocator_allocate(
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
     size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (mem_offset >= bump->max_size || size >= bump->max_size - mem_offset)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 90bfa495ce9599cbbe214f6c943701c9869d6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 05/43] fix: swapped lists and trees must own the nodes they
 hold

The shallow swap left the nodes' parent pointers, the allocator of the
instance, and a tree's embedded nil node behind: inserting next to a node
updated the other list, a tree used the other tree's nil node even after that
was released, and an instance was reclaimed through the other's allocator.
---
 src/list/list_swap.c     | 15 ++++++++++
 src/rbtree/rbtree_swap.c | 59 ++++++++++++++++++++++++++++++++++++++++
 src/slist/slist_swap.c   | 15 ++++++++++
 3 files changed, 89 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..91a0947 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,21 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance stays with the allocator that it was drawn from. */
+    tmp.alloc = left->alloc;
+    left->alloc = right->alloc;
+    right->alloc = tmp.alloc;
+
+    /* the nodes now belong to the other instance. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..cc00c56 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,11 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void rbtree_adopt_nodes(rbtree* tree, rbtree_node* old_nil);
+static void rbtree_adopt_node(
+    rbtree* tree, rbtree_node** link, rbtree_node* old_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -46,7 +51,61 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance stays with the allocator that it was drawn from. */
+    tmp.alloc = left->alloc;
+    left->alloc = right->alloc;
+    right->alloc = tmp.alloc;
+
+    /* the nodes must now end in the nil node embedded in their new tree. */
+    rbtree_adopt_nodes(left, &right->nil_impl);
+    rbtree_adopt_nodes(right, &left->nil_impl);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Make a tree whose root was taken over from another tree use its own
+ * embedded nil node again.
+ *
+ * \param tree          The tree.
+ * \param old_nil       The nil node in which its nodes still end.
+ */
+static void rbtree_adopt_nodes(rbtree* tree, rbtree_node* old_nil)
+{
+    tree->nil = &tree->nil_impl;
+    tree->nil->parent = tree->nil;
+    tree->nil->left = tree->nil;
+    tree->nil->right = tree->nil;
+    tree->nil->value = rbtree_node_resource_handle(tree->nil);
+    tree->nil->color = RBTREE_BLACK;
+
+    if (tree->root != old_nil)
+    {
+        tree->root->parent = tree->nil;
+    }
+
+    rbtree_adopt_node(tree, &tree->root, old_nil);
+}
+
+/**
+ * \brief Replace the old nil node at or below this link.
+ *
+ * \param tree          The tree.
+ * \param link          The link to the node.
+ * \param old_nil       The nil node to replace.
+ */
+static void rbtree_adopt_node(
+    rbtree* tree, rbtree_node** link, rbtree_node* old_nil)
+{
+    if (*link == old_nil)
+    {
+        *link = tree->nil;
+    }
+    else
+    {
+        rbtree_adopt_node(tree, &(*link)->left, old_nil);
+        rbtree_adopt_node(tree, &(*link)->right, old_nil);
+    }
+}
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..ccde457 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,21 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance stays with the allocator that it was drawn from. */
+    tmp.alloc = left->alloc;
+    left->alloc = right->alloc;
+    right->alloc = tmp.alloc;
+
+    /* the nodes now belong to the other instance. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 62017295b602cf32037d1614f39394686d20803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 06/43] fix: rbtree_insert must refuse duplicate keys and
 rbtree_delete clear the result

Both are documented: ERROR_RBTREE_DUPLICATE was promised but did not exist,
and a failed delete is to set the resource pointer to NULL.
---
 include/rcpr/status/rbtree.h | 6 ++++++
 src/rbtree/rbtree_delete.c   | 5 +++++
 src/rbtree/rbtree_insert.c   | 7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/include/rcpr/status/rbtree.h b/include/rcpr/status/rbtree.h
index 4e1b7a6..090a709 100644
--- a/include/rcpr/status/rbtree.h
+++ b/include/rcpr/status/rbtree.h
@@ -22,3 +22,9 @@
  */
 #define ERROR_RBTREE_NOT_FOUND \
     STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0001)
+
+/**
+ * \brief A node with this key already exists.
+ */
+#define ERROR_RBTREE_DUPLICATE \
+    STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0002)
diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index bf9fd8e..85113be 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -62,6 +62,11 @@ RCPR_SYM(rbtree_delete)(
     retval = rbtree_find_node(tree, key, &node);
     if (STATUS_SUCCESS != retval)
     {
+        if (NULL != r)
+        {
+            *r = NULL;
+        }
+
         return retval;
     }
 
diff --git a/src/rbtree/rbtree_insert.c b/src/rbtree/rbtree_insert.c
index 81e12c0..968d043 100644
--- a/src/rbtree/rbtree_insert.c
+++ b/src/rbtree/rbtree_insert.c
@@ -53,6 +53,13 @@ RCPR_SYM(rbtree_insert)(
     RCPR_MODEL_ASSERT(prop_rbtree_valid(tree));
     RCPR_MODEL_ASSERT(prop_resource_valid(r));
 
+    /* each key can only be inserted once. */
+    if (STATUS_SUCCESS
+        == rbtree_find_node(tree, tree->key(tree->context, r), &new_node))
+    {
+        return ERROR_RBTREE_DUPLICATE;
+    }
+
     /* attempt to create an rbtree node. */
     retval = rbtree_node_create(&new_node, tree, r);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From fd50316f57d56a6bb966f988e983bf3b2a4846a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 07/43] fix: containers must survive a failing release of an
 owned resource

The node whose child failed to release was leaked, a list whose clear stopped
half-way kept dangling head->prev and tail pointers, and a queue was freed
although its list had not been released.
---
 src/list/list_clear.c           | 10 ++++++++++
 src/list/list_node_release.c    |  9 +++++----
 src/queue/queue_create.c        |  5 +++++
 src/rbtree/rbtree_node_create.c |  9 +++++----
 src/slist/slist_clear.c         |  6 ++++++
 src/slist/slist_node_release.c  |  9 +++++----
 6 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..b49cdc0 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -43,6 +43,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the remaining list valid, in case this release fails. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
         t->prev = NULL;
diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..06f0e8e 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -36,6 +36,8 @@ RCPR_SYM(list_node_release)(
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
     RCPR_MODEL_ASSERT(NULL == n->parent && NULL == n->next);
 
+    status release_retval = STATUS_SUCCESS;
+
     /* if the child resource is set, release it. */
     if (NULL != n->child)
     {
@@ -46,15 +48,14 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
     /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
+    status reclaim_retval =
         allocator_reclaim(a, n);
+    return STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..23b4089 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -131,6 +131,11 @@ static status queue_release(resource* r)
 
     /* release the list resource. */
     list_retval = resource_release(slist_resource_handle(q->list));
+    if (STATUS_SUCCESS != list_retval)
+    {
+        /* the list still holds resources, and the queue still holds the list. */
+        return list_retval;
+    }
 
     /* reclaim this instance. */
     retval = allocator_reclaim(a, q);
diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..d82a7d7 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -116,6 +116,8 @@ static status rbtree_node_release(resource* r)
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_node_valid(n));
 
+    status release_retval = STATUS_SUCCESS;
+
     /* if the value is set, release it. */
     if (NULL != n->value)
     {
@@ -126,15 +128,14 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
     /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
+    status reclaim_retval =
         allocator_reclaim(a, n);
+    return STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..9cd16de 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -42,6 +42,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the remaining list valid, in case this release fails. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
 
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..faba416 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -37,6 +37,8 @@ RCPR_SYM(slist_node_release)(
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
     RCPR_MODEL_ASSERT(NULL == n->parent && NULL == n->next);
 
+    status release_retval = STATUS_SUCCESS;
+
     /* if the child resource is set, release it. */
     if (NULL != n->child)
     {
@@ -47,15 +49,14 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
     /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
+    status reclaim_retval =
         allocator_reclaim(a, n);
+    return STATUS_SUCCESS != release_retval ? release_retval : reclaim_retval;
 }
-- 
2.43.0


From 3f2616f61519344467ef4d06491993a9a82bea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 08/43] fix: psock_br_create_from_psock must report an
 allocation failure

---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From d8e0f540b7fbba0ed3f23f51bd6f95242b77f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 09/43] fix: a failed mailbox or conditional creation must be
 reported and keep nothing

---
 ...ondition_discipline_create_callback_handler.c | 16 ++++++++++++++--
 ..._discipline_mailbox_create_callback_handler.c | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..da3535a 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
@@ -89,8 +89,20 @@ resume_fail:
     resume_param = (void*)((ptrdiff_t)retval);
 
 done:
-    return
+    retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
             resume_event, resume_param);
+    if (   STATUS_SUCCESS != retval
+        && FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS == resume_event)
+    {
+        /* the caller never learns of this instance, so don't keep it. */
+        release_retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
+
+    return retval;
 }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..b7f02cd 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
@@ -89,8 +89,20 @@ resume_fail:
     resume_param = (void*)((ptrdiff_t)retval);
 
 done:
-    return
+    retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
             resume_event, resume_param);
+    if (   STATUS_SUCCESS != retval
+        && FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS == resume_event)
+    {
+        /* the caller never learns of this instance, so don't keep it. */
+        release_retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+    }
+
+    return retval;
 }
-- 
2.43.0


From d7fc5218cfa2236f2e22db5a0e6954f107a3fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 10/43] fix: the psock I/O discipline must not be registered
 without its idle fiber

---
 src/psock/psock_create_wrap_async.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..d2767f8 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,22 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. This must exist before the discipline is added,
+     * because a scheduler with this discipline but no idle fiber would never
+     * poll. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber;
     }
 
     /* set the idle fiber. */
@@ -318,9 +318,9 @@ static status psock_create_wrap_async_add_psock_discipline(
     if (STATUS_SUCCESS != retval)
     {
         /* note: if we've added the fiber, we can no longer clean it up. But,
-         * the add won't fail. */
+         * the add won't fail. Likewise, the scheduler owns the discipline. */
         /* TODO - make set idle fiber return void. */
-        goto cleanup_idle_fiber;
+        goto done;
     }
 
     /* success. */
@@ -334,9 +334,6 @@ cleanup_idle_fiber:
         retval = release_retval;
     }
 
-    /* skip the discipline cleanup; it is now handled by the scheduler. */
-    goto done;
-
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From 7a4f1c2f054302bb3562ae73b25882f230ba922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 11/43] fix: fiber_scheduler_discipline_add must not keep a
 discipline it failed to add

---
 .../common/fiber_scheduler_discipline_add.c   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..796e472 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -86,16 +86,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
     {
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
- 
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
 
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
@@ -144,6 +134,17 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree, now that nothing else can
+     * fail; from here, the tree owns it. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From 67263fb0fc307bec3f3194e147f433eb4509ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 12/43] fix: disciplined scheduler failure paths must not leak,
 crash or keep a fiber that was not added

---
 .../fiber_scheduler_create_with_disciplines.c | 91 ++++++++++++-------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..171357e 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status reclaim_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context structure. */
+    reclaim_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -579,7 +583,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     }
     else
     {
-        return STATUS_SUCCESS;
+        return reclaim_retval;
     }
 }
 
@@ -818,7 +822,8 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, cleanup_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -840,25 +845,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -866,9 +852,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_fiber;
     }
 
     /* if the management fiber exists, */
@@ -883,15 +867,54 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto unqueue_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append the new fiber to the run queue. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto unqueue_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+unqueue_management_fiber:
+    if (NULL != ctx->management_fiber)
+    {
+        cleanup_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != cleanup_retval)
+        {
+            retval = cleanup_retval;
+        }
+    }
+
+unqueue_yield_fiber:
+    cleanup_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != cleanup_retval)
+    {
+        retval = cleanup_retval;
+    }
+
+remove_fiber:
+    /* the caller still owns the fiber, so remove it from the tree. */
+    cleanup_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != cleanup_retval)
+    {
+        retval = cleanup_retval;
+    }
+
+    return retval;
 }
 
 /**
@@ -980,10 +1003,14 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_param;
 
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* we must do this by hand because ctx->sched is not set if the scheduler
+     * could not be created. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From 11c9600ff9996f70d6a23f6840bdd2345b5c3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 13/43] fix: descriptors already in place or in another's place
 must not be lost when moved

---
 .../vsocket_utility_move_descriptors.c        | 30 +++++++++++++++++--
 src/socket_utilities/vsocket_utility_setfds.c |  7 +++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..98db66a 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -32,6 +32,8 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
 {
     status retval;
     int* curr;
+    int* other;
+    va_list rest;
 
     /* runtime parameter checks. */
     if (threshold < 0)
@@ -53,6 +55,27 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
+        /* If a later descriptor in the list is at the threshold, get it out of
+         * the way first; it is moved to its own place in its turn. */
+        va_copy(rest, args);
+        other = (old_fd == threshold) ? NULL : va_arg(rest, int*);
+        while (NULL != other && *other != threshold)
+        {
+            other = va_arg(rest, int*);
+        }
+        va_end(rest);
+        if (NULL != other)
+        {
+            new_fd = dup(*other);
+            if (new_fd < 0)
+            {
+                retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
+                goto done;
+            }
+            close(*other);
+            *other = new_fd;
+        }
+
         /* Move the descriptor to the threshold or above */
         new_fd = dup2(old_fd, threshold);
         if (new_fd < 0)
@@ -61,8 +84,11 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Close the old file descriptor */
-        close(old_fd);
+        /* Close the old file descriptor, unless it was already in place */
+        if (old_fd != threshold)
+        {
+            close(old_fd);
+        }
 
         /* Update the descriptor to point to the new location */
         *curr = threshold;
diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..fa21809 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it was already in place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 0b5db7c1e987f0197eba87491410dc86bffb9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 14/43] fix: a buffered psock must deliver buffered bytes
 before a failure to read more

---
 src/psock/psock_br_psock_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..cf24b9a 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -53,7 +53,9 @@ status RCPR_SYM(psock_br_psock_read)(
         if (available_bytes < requested_bytes)
         {
             retval = psock_br_fill(br);
-            if (STATUS_SUCCESS != retval)
+
+            /* bytes already buffered are delivered before a failure. */
+            if (STATUS_SUCCESS != retval && 0 == available_bytes)
             {
                 /* update size with the number of read bytes. */
                 *size = read_bytes;
-- 
2.43.0


From 52d8e607547e8cc3a604df1f8e67e6e9801863e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 15/43] fix: a line that exactly fits the buffer must not be
 reported as truncated

---
 src/psock/psock_br_read_line.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..49e0418 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -86,7 +86,7 @@ RCPR_SYM(psock_br_read_line)(
     const uint8_t* inp = br->buffer + br->offset;
 
     /* outer loop. */
-    while (buffer_remaining > 0)
+    while (true)
     {
         /* while there's buffer space, data to copy, and not EOL, copy data. */
         while (buffer_remaining > 0 && available_input > 0 && '\n' != *inp)
@@ -122,8 +122,8 @@ RCPR_SYM(psock_br_read_line)(
             goto done;
         }
 
-        /* edge case 1: we've run out of buffer space. */
-        if (0 == buffer_remaining)
+        /* edge case 1: we've run out of buffer space before the line ended. */
+        if (0 == buffer_remaining && available_input > 0)
         {
             /* set the number of committed bytes. */
             committed_bytes += copied_bytes;
-- 
2.43.0


From bb73f0e66301c74d20e63d22e5ec6b6e40e5f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 16/43] fix: a buffered reader must wait for, or resume after,
 a read that would block

---
 src/psock/psock_br_fill.c       | 33 +++++++++++++++++++++++++++------
 src/psock/psock_br_psock_read.c |  2 +-
 src/psock/psock_br_read_line.c  | 16 ++++++++++++++--
 src/psock/psock_internal.h      |  8 +++++---
 4 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..38ff539 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If true and the backing \ref psock is async, wait until
+ *                      it can provide data.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -59,11 +61,30 @@ status RCPR_SYM(psock_br_fill)(
     }
 
     /* read as many bytes as we can from the wrapped socket. */
-    size_t read_bytes = br->max_size - br->current_size;
-    retval =
-        wrapped_vtable->read_fn(
-            br->wrapped, br->wrapped->context, br->buffer + br->current_size,
-            &read_bytes, false);
+    size_t read_bytes;
+    bool retry;
+    do
+    {
+        retry = false;
+        read_bytes = br->max_size - br->current_size;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, false);
+
+#ifdef HAS_PSOCK_ASYNC
+        /* an async socket can wait until there is something to read. */
+        if (
+            ERROR_PSOCK_READ_WOULD_BLOCK == retval && block
+         && PSOCK_TYPE_WRAP_ASYNC == br->wrapped->type)
+        {
+            retval = psock_read_block(br->wrapped);
+            retry = STATUS_SUCCESS == retval;
+        }
+#endif /* HAS_PSOCK_ASYNC */
+    } while (retry);
+
+    /* did the read fail? */
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index cf24b9a..8d62732 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,7 +52,7 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have enough bytes. */
         if (available_bytes < requested_bytes)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
 
             /* bytes already buffered are delivered before a failure. */
             if (STATUS_SUCCESS != retval && 0 == available_bytes)
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index 49e0418..fcae1d0 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,8 +158,20 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
-                if (STATUS_SUCCESS != retval)
+                retval = psock_br_fill(br, true);
+                if (ERROR_PSOCK_READ_WOULD_BLOCK == retval)
+                {
+                    /* give out the part read so far; the rest comes later. */
+                    if (committed_bytes > 0)
+                    {
+                        *bbuf = 0;
+                        *buffer_size = committed_bytes;
+                        retval = ERROR_PSOCK_BR_READ_LINE_TRUNCATED;
+                    }
+
+                    goto done;
+                }
+                else if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
                     br->error = true;
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..f1c6d98 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If true and the backing \ref psock is async, wait until
+ *                      it can provide data.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 15bc1811bb5b551225f7fdb764d0d17b7037ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 17/43] fix: a failed write to a buffer psock must keep what
 was written and accept nothing

---
 src/psock/psock_from_buffer_write.c | 116 ++++++++++++----------------
 1 file changed, 48 insertions(+), 68 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..82a3b28 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -50,9 +50,8 @@ status RCPR_SYM(psock_from_buffer_write)(
     (void)ctx;
     status retval, release_retval;
     size_t copy_size;
-    size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
-    void* large_buffer = NULL;
+    char* new_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -75,126 +74,107 @@ status RCPR_SYM(psock_from_buffer_write)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* fill the current buffer first. */
+    /* compute the room left in the current buffer. */
     copy_size = pb->output_buffer_size - pb->buffer_write_offset;
-    if (copy_size > *size)
-    {
-        copy_size = *size;
-    }
-    memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-    data = ((uint8_t*)data) + copy_size;
-    total_size += copy_size;
-    pb->buffer_write_offset += copy_size;
-    *size -= copy_size;
-
-    /* if the current buffer is full, append it to the output queue and reset
-     * the buffer. */
-    if (pb->buffer_write_offset >= pb->output_buffer_size)
+
+    /* if the data does not fit the current buffer and the next one, then move
+     * it along with the current buffer's data to a buffer of the right size. */
+    if (*size > copy_size && *size - copy_size >= PSOCK_BUFFER_SIZE)
     {
+        size_t large_size = pb->buffer_write_offset + *size;
+
+        /* create a buffer for holding this data. */
+        retval = allocator_allocate(sock->alloc, (void**)&new_buffer, large_size);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
+        /* copy data to this buffer. */
+        memcpy(new_buffer, pb->output_curr_buffer, pb->buffer_write_offset);
+        memcpy(new_buffer + pb->buffer_write_offset, data, *size);
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
-                &ob, sock->alloc, pb->output_curr_buffer,
-                pb->output_buffer_size);
+                &ob, sock->alloc, new_buffer, large_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_new_buffer;
         }
 
         /* append this to the tail of the queue. */
         retval = slist_append_tail(pb->output_queue, &ob->hdr);
         if (STATUS_SUCCESS != retval)
         {
-            /* clean up ob. */
-            ob->buffer = NULL;
-            release_retval = resource_release(&ob->hdr);
-            if (STATUS_SUCCESS != release_retval)
-            {
-                retval = release_retval;
-            }
-            goto done;
+            goto cleanup_ob;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
-        pb->output_buffer_size = PSOCK_BUFFER_SIZE;
+        /* the current buffer is now empty. */
         pb->buffer_write_offset = 0;
-
+    }
+    /* if the data fills the current buffer, append it to the output queue and
+     * replace it with a new buffer. */
+    else if (*size >= copy_size)
+    {
         /* allocate memory for the new buffer. */
         retval =
             allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
-    }
-
-    /* if the remaining size is greater than the current output buffer size,
-     * then create and append a buffer equal to that size to save time. */
-    if (*size >= pb->output_buffer_size)
-    {
-        /* create a buffer for holding this extra data. */
-        retval = allocator_allocate(sock->alloc, (void**)&large_buffer, *size);
+                sock->alloc, (void**)&new_buffer, PSOCK_BUFFER_SIZE);
         if (STATUS_SUCCESS != retval)
         {
             goto done;
         }
 
-        /* copy data to this buffer. */
-        memcpy(large_buffer, data, *size);
-
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
-                &ob, sock->alloc, large_buffer, *size);
+                &ob, sock->alloc, pb->output_curr_buffer,
+                pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto cleanup_large_buffer;
+            goto cleanup_new_buffer;
         }
 
         /* append this to the tail of the queue. */
         retval = slist_append_tail(pb->output_queue, &ob->hdr);
         if (STATUS_SUCCESS != retval)
         {
-            ob->buffer = NULL;
             goto cleanup_ob;
         }
 
-        /* fixups. */
-        data = ((uint8_t*)data) + *size;
-        total_size += *size;
-        *size = 0;
-    }
-
-    /* if there is still remaining data to copy, then append it. */
-    if (*size > 0)
-    {
-        copy_size = *size;
+        /* nothing can fail now: split the data between the two buffers. */
         memcpy(
             pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
-        total_size += copy_size;
-        pb->buffer_write_offset += copy_size;
-        *size -= copy_size;
+        memcpy(
+            new_buffer, ((const uint8_t*)data) + copy_size, *size - copy_size);
+        pb->output_curr_buffer = new_buffer;
+        pb->output_buffer_size = PSOCK_BUFFER_SIZE;
+        pb->buffer_write_offset = *size - copy_size;
+    }
+    /* otherwise, the data fits in the current buffer. */
+    else
+    {
+        memcpy(pb->output_curr_buffer + pb->buffer_write_offset, data, *size);
+        pb->buffer_write_offset += *size;
     }
 
     /* success. */
-    RCPR_MODEL_ASSERT(0 == *size);
-    *size = total_size;
     pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
 cleanup_ob:
+    /* the buffer is not owned by this node. */
+    ob->buffer = NULL;
     release_retval = resource_release(&ob->hdr);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
 
-cleanup_large_buffer:
-    release_retval = allocator_reclaim(sock->alloc, large_buffer);
+cleanup_new_buffer:
+    release_retval = allocator_reclaim(sock->alloc, new_buffer);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 6e7c64b28d4297e1c1ea98ac258aab7f9a165a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 18/43] fix: an empty read at the end of an input buffer psock
 must succeed

---
 src/psock/psock_from_buffer_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_from_buffer_read.c b/src/psock/psock_from_buffer_read.c
index 8dc8217..922af46 100644
--- a/src/psock/psock_from_buffer_read.c
+++ b/src/psock/psock_from_buffer_read.c
@@ -48,7 +48,7 @@ status RCPR_SYM(psock_from_buffer_read)(
 
     /* if we are at EOF, return EOF. */
     if (NULL == pb->input_buffer
-     || pb->buffer_read_offset >= pb->input_buffer_size)
+     || (*size > 0 && pb->buffer_read_offset >= pb->input_buffer_size))
     {
         return ERROR_PSOCK_READ_EOF;
     }
-- 
2.43.0


From 8caff3ce99a059c717ce92a24c566b5e8bbea0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 19/43] fix: deliver bytes read before the end by a
 non-blocking async read

psock_wrap_async_read with block=false dropped the bytes it had already
read when the next read of the wrapped socket reported end of stream or an
error, so that a buffered reader over an async socket lost the last data
before a close.
---
 src/psock/psock_wrap_async_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..60ef8ad 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -95,6 +95,13 @@ status RCPR_SYM(psock_wrap_async_read)(
                 return retval;
             }
         }
+        /* if a non-blocking read ends after some data has been read, return
+         * this data; the next read reports why no more could be read. */
+        else if (!block && *size > 0 &&
+                 (STATUS_SUCCESS != retval || 0 == tmp_size))
+        {
+            return STATUS_SUCCESS;
+        }
         /* if a different error occurred in the read, return it.*/
         else if (STATUS_SUCCESS != retval)
         {
-- 
2.43.0


From 81e6cac336c8d59dc8ba7b0fe029987e7aa4ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 20/43] fix: report the bytes written when an async write ends
 early

When the wait for writability failed or the peer had closed the socket,
psock_wrap_async_write left the size at the number of bytes requested.
---
 src/psock/psock_wrap_async_write.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psock/psock_wrap_async_write.c b/src/psock/psock_wrap_async_write.c
index 029f229..bfca6c4 100644
--- a/src/psock/psock_wrap_async_write.c
+++ b/src/psock/psock_wrap_async_write.c
@@ -82,6 +82,7 @@ status RCPR_SYM(psock_wrap_async_write)(
             retval = psock_write_block(sock);
             if (STATUS_SUCCESS != retval)
             {
+                *size -= write_size;
                 return retval;
             }
         }
@@ -94,6 +95,7 @@ status RCPR_SYM(psock_wrap_async_write)(
         /* if no data was written, then the peer closed the socket. */
         else if (0 == tmp_size)
         {
+            *size -= write_size;
             return ERROR_PSOCK_WRITE_EOF;
         }
 
-- 
2.43.0


From 2cb9a79c77cd08cfbecc0c68fb62cf30e85a4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 21/43] fix: wake fibers waiting for I/O when only an error or
 a hang-up is reported

epoll reports EPOLLERR and EPOLLHUP whether or not they were asked for.
A report of one of these alone woke nobody, and since the descriptor was
re-armed at once and reported again, the waiting fiber stayed blocked while
the idle fiber was spinning.
---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..bbc0a9b 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,8 +70,10 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
-            /* check for a read resume event. */
-            if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
+            /* check for a read resume event. Errors and hang-ups are reported
+             * whether or not they were asked for, and end the wait as well. */
+            if ((filter & (EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP))
+                && NULL != ps->read_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
@@ -107,7 +109,8 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             }
 
             /* check for a write resume event. */
-            if ((filter & EPOLLOUT) && NULL != ps->write_block_fib)
+            if ((filter & (EPOLLOUT | EPOLLERR | EPOLLHUP))
+                && NULL != ps->write_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
-- 
2.43.0


From c53d6b0d90fdf903476d49c80c24ef8201b79a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 22/43] fix: do not leak descriptors when more than one is
 passed

The control buffer of psock_read_raw_descriptor has room for two
descriptors because of its padding, so that a peer passing two left one
open which nobody knew of.  Leave room for one only, take it only from a
control message holding exactly one, and reject messages which carried
more.
---
 src/psock/psock_read_raw_descriptor.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..ad63554 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -84,7 +84,8 @@ RCPR_SYM(psock_read_raw_descriptor)(
     memset(&m, 0, sizeof(m));
     m.msg_iov = &iov;
     m.msg_iovlen = 1;
-    m.msg_controllen = CMSG_SPACE(sizeof(int));
+    /* leave no room for a second descriptor, which nobody would close. */
+    m.msg_controllen = CMSG_LEN(sizeof(int));
     m.msg_control = buf;
 
     /* set sentry for the receive socket. */
@@ -101,13 +102,22 @@ RCPR_SYM(psock_read_raw_descriptor)(
     for (cm = CMSG_FIRSTHDR(&m); NULL != cm; cm = CMSG_NXTHDR(&m, cm))
     {
         /* if this is a socket message, save the socket. */
-        if (SOL_SOCKET == cm->cmsg_level && SCM_RIGHTS == cm->cmsg_type)
+        if (SOL_SOCKET == cm->cmsg_level && SCM_RIGHTS == cm->cmsg_type
+         && CMSG_LEN(sizeof(int)) == cm->cmsg_len
+         && m.msg_controllen >= CMSG_LEN(sizeof(int)))
         {
             memcpy(desc, CMSG_DATA(cm), sizeof(int));
             break;
         }
     }
 
+    /* if more was sent than a single descriptor, reject the message. */
+    if (*desc >= 0 && (m.msg_flags & MSG_CTRUNC))
+    {
+        close(*desc);
+        *desc = -1;
+    }
+
     /* verify that we received a socket. */
     if (*desc < 0)
     {
-- 
2.43.0


From 4b659b4223f14c82fff51b6d69dae295e42ec5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 23/43] fix: deliver an unexpected event to the handler of the
 fiber it reached

A fiber waiting in psock_read_block or psock_write_block had its unexpected
events delivered to the handler of the fiber for which the socket had been
created, which may be another one or no longer exist.
---
 src/psock/psock_read_block.c  | 2 +-
 src/psock/psock_write_block.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..574c5fc 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -121,7 +121,7 @@ RCPR_SYM(psock_read_block)(
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ);
             if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..2b59e7a 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -118,7 +118,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From c1ced736e4b2f9d603560e38d11b939e8b7a9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 24/43] fix: reject a yield code one past the end of a
 discipline's table

fiber_discipline_yield read past the end of the discipline's callback codes
for a yield event equal to the number of its callbacks.
---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From 8cd23d996fb9dc86a7e565ea5f46ab0ad1348dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 25/43] fix: do not leave the requester queued when a quiesce
 or terminate request fails

---
 .../fiber_scheduler_create_with_disciplines.c | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 171357e..f2d9426 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1067,7 +1067,8 @@ static status
 fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, cleanup_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* fib = (fiber*)yield_param;
@@ -1112,6 +1113,13 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
+            /* on failure, the yielding fiber gets the error instead. */
+            cleanup_retval = queue_pop(ctx->run_queue, &dummy);
+            if (STATUS_SUCCESS != cleanup_retval)
+            {
+                retval = cleanup_retval;
+            }
+
             return retval;
         }
     }
@@ -1138,7 +1146,8 @@ static status
 fiber_scheduler_disciplined_management_terminate_event_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, cleanup_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* fib = (fiber*)yield_param;
@@ -1183,6 +1192,13 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
+            /* on failure, the yielding fiber gets the error instead. */
+            cleanup_retval = queue_pop(ctx->run_queue, &dummy);
+            if (STATUS_SUCCESS != cleanup_retval)
+            {
+                retval = cleanup_retval;
+            }
+
             return retval;
         }
     }
-- 
2.43.0


From d3dd01f16da86262bb7d94bfc4ece51529fdb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 26/43] fix: leave a message with its sender when sending it
 fails for lack of memory

---
 ...discipline_message_send_callback_handler.c | 61 +++++++++----------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..bc40e2a 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,9 +10,11 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
+RCPR_IMPORT_fiber_internal;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_queue;
@@ -35,12 +37,13 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     void* context, RCPR_SYM(fiber)* yield_fib, int yield_event,
     void* yield_param)
 {
-    status retval;
+    status retval, cleanup_retval;
     mailbox* mbox;
     message* msg;
     mailbox_address addr;
     int resume_event;
     void* resume_param;
+    resource* dummy = NULL;
 
     /* ignore yield event. */
     (void)yield_event;
@@ -68,14 +71,7 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
-    /* message sent, so tell the original fiber to restart. */
+    /* so tell the original fiber to restart. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
@@ -90,37 +86,38 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
      * run. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
     /* otherwise, leave the message on the queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
     }
 
+    /* if the message was not sent, the sending fiber gets the error instead. */
+    if (STATUS_SUCCESS != retval)
+    {
+        fiber_scheduler_disciplined_context* sched_ctx =
+            (fiber_scheduler_disciplined_context*)ctx->sched->context;
+
+        cleanup_retval = queue_pop(sched_ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != cleanup_retval)
+        {
+            retval = cleanup_retval;
+        }
+    }
+
+    return retval;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From a22301747a5414c803abb99d69fa3703910e5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 27/43] fix: keep a message in its mailbox when receiving it
 fails for lack of memory

---
 ...cipline_message_receive_callback_handler.c | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..6ef2097 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,9 +10,11 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
+RCPR_IMPORT_fiber_internal;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_queue;
@@ -78,33 +80,40 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* resume the fiber, before taking the message that it receives. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From 3efbd2793946477d39a523b0d20aba68efce59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 28/43] fix: do not leave an interrupted fiber registered as a
 mailbox's receiver

---
 src/message/message_receive.c | 45 +++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..983d687 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -14,8 +14,15 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
+RCPR_IMPORT_message_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void message_receive_unblock(
+    mailbox_address recvaddr, fiber_scheduler_discipline* msgdisc);
+
 /**
  * \brief Receive a \ref message from the mailbox.
  *
@@ -58,9 +65,19 @@ RCPR_SYM(message_receive)(
             (void*)recvaddr, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        message_receive_unblock(recvaddr, msgdisc);
         return retval;
     }
 
+    /* an out-of-band event interrupts this receive. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(*resume_id)))
+    {
+        /* TODO - add support for out-of-band events. */
+        message_receive_unblock(recvaddr, msgdisc);
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
@@ -80,8 +97,32 @@ RCPR_SYM(message_receive)(
     }
     else
     {
-        /* TODO - add support for out-of-band events. */
-
         return ERROR_MESSAGE_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Ensure that the current fiber is not blocked on the given mailbox.
+ *
+ * \param recvaddr      The \ref mailbox_address for the mailbox.
+ * \param msgdisc       The messaging discipline.
+ */
+static void message_receive_unblock(
+    mailbox_address recvaddr, fiber_scheduler_discipline* msgdisc)
+{
+    mailbox* mbox;
+    fiber* fib;
+    message_discipline_context* ctx =
+        (message_discipline_context*)
+            fiber_scheduler_discipline_context_get(msgdisc);
+
+    if (   STATUS_SUCCESS
+                == rbtree_find((resource**)&mbox, ctx->mailboxes, &recvaddr)
+        && STATUS_SUCCESS
+                == disciplined_fiber_scheduler_current_fiber_get(
+                        &fib, ctx->sched)
+        && fib == mbox->blocked_fiber)
+    {
+        mbox->blocked_fiber = NULL;
+    }
+}
-- 
2.43.0


From d0eae7fc5606f8f5dc2223ae846c7d5494f52e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 29/43] fix: wake a fiber waiting on a mailbox when it is
 closed

---
 ...iscipline_mailbox_close_callback_handler.c | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..7cdb82a 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -16,6 +16,7 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 
 /**
  * \brief The callback handler for a close mailbox request.
@@ -34,6 +35,7 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    mailbox* mbox;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +50,30 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
+    /* look up the mailbox. */
+    retval = rbtree_find((resource**)&mbox, ctx->mailboxes, &addr);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* a fiber blocked on this mailbox fails as if it had been closed before. */
+    if (NULL != mbox->blocked_fiber)
+    {
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE,
+                (void*)((ptrdiff_t)ERROR_RBTREE_NOT_FOUND));
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        mbox->blocked_fiber = NULL;
+    }
+
     /* Attempt to delete the mailbox. */
     retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 081ea6cc199fb7642832ad05e046d245e0d4d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 30/43] fix: keep a fiber waiting on a condition when notifying
 it fails for lack of memory

---
 ...n_discipline_notify_all_callback_handler.c | 27 ++++++++++++++-----
 ...n_discipline_notify_one_callback_handler.c | 27 ++++++++++++++-----
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..04e0b5f 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -64,24 +64,37 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     while (slist_count(cond->wait_list) > 0)
     {
         /* get a waiting fiber. */
-        fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        resource* fib;
+        slist_node* node;
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            return retval;
+        }
+
+        retval = slist_node_child(&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
         }
 
         /* resume the waiting fiber. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
-                ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                ctx->sched, (fiber*)fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
                 FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            /* it keeps waiting. */
+            return retval;
+        }
+
+        /* it waits no longer. */
+        retval = slist_pop(cond->wait_list, &fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..363d927 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -64,24 +64,37 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     if (slist_count(cond->wait_list) > 0)
     {
         /* get a waiting fiber. */
-        fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        resource* fib;
+        slist_node* node;
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            return retval;
+        }
+
+        retval = slist_node_child(&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
         }
 
         /* resume the waiting fiber. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
-                ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                ctx->sched, (fiber*)fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
                 FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_SUCCESS,
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            /* it keeps waiting. */
+            return retval;
+        }
+
+        /* it waits no longer. */
+        retval = slist_pop(cond->wait_list, &fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
         }
     }
 
-- 
2.43.0


From b56c075523d95dba0687c1c74e2b1dc7af2685ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 31/43] fix: do not leave an interrupted fiber in a condition's
 wait list

---
 src/condition/conditional_wait.c | 72 +++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..5485bf8 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
+RCPR_IMPORT_condition_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void conditional_wait_cancel(
+    conditional handle, fiber_scheduler_discipline* condisc);
+
 /**
  * \brief Wait on a \ref conditional.
  *
@@ -49,9 +57,20 @@ RCPR_SYM(conditional_wait)(
             (void*)handle, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        conditional_wait_cancel(handle, condisc);
         return retval;
     }
 
+    /* an out-of-band event interrupts this wait. */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            sizeof(*resume_id)))
+    {
+        /* TODO - add support for out-of-band events. */
+        conditional_wait_cancel(handle, condisc);
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is WAIT_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
@@ -66,8 +85,57 @@ RCPR_SYM(conditional_wait)(
     }
     else
     {
-        /* TODO - add support for out-of-band events. */
-
         return ERROR_CONDITION_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Ensure that the current fiber is not waiting on the given condition.
+ *
+ * \param handle        The \ref conditional handle.
+ * \param condisc       The condition discipline.
+ */
+static void conditional_wait_cancel(
+    conditional handle, fiber_scheduler_discipline* condisc)
+{
+    condition_barrier* cond;
+    fiber* fib;
+    resource* r = NULL;
+    slist_node* prev = NULL;
+    slist_node* node = NULL;
+    condition_discipline_context* ctx =
+        (condition_discipline_context*)
+            fiber_scheduler_discipline_context_get(condisc);
+
+    if (   STATUS_SUCCESS
+                != rbtree_find(
+                        (resource**)&cond, ctx->condition_barriers, &handle)
+        || STATUS_SUCCESS
+                != disciplined_fiber_scheduler_current_fiber_get(
+                        &fib, ctx->sched)
+        || STATUS_SUCCESS != slist_head(&node, cond->wait_list))
+    {
+        return;
+    }
+
+    /* find this fiber in the wait list. */
+    while (   NULL != node && STATUS_SUCCESS == slist_node_child(&r, node)
+           && r != fiber_resource_handle(fib))
+    {
+        prev = node;
+        if (STATUS_SUCCESS != slist_node_next(&node, node))
+        {
+            return;
+        }
+    }
+
+    /* remove it. */
+    if (NULL != node)
+    {
+        r = NULL;
+        status retval =
+            (NULL == prev) ? slist_pop(cond->wait_list, &r)
+                           : slist_node_next_pop(prev, &r);
+        (void)retval;
+    }
+}
-- 
2.43.0


From 6f757cbf3b2ba7af3f7011816b132f33edb8c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 32/43] fix: wake fibers waiting on a condition when it is
 closed

---
 ...dition_discipline_close_callback_handler.c | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..a7d7b60 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -16,6 +16,8 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
 RCPR_IMPORT_condition_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 
 /**
  * \brief The callback handler for a close conditional request.
@@ -34,6 +36,9 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    condition_barrier* barrier;
+    resource* fib;
+    slist_node* node;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +53,45 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
+    /* look up the condition barrier. */
+    retval = rbtree_find((resource**)&barrier, ctx->condition_barriers, &cond);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* waiting fibers fail as if the condition had been closed before. */
+    while (slist_count(barrier->wait_list) > 0)
+    {
+        retval = slist_head(&node, barrier->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
+        retval = slist_node_child(&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
+        retval =
+            disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                ctx->sched, (fiber*)fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE,
+                (void*)((ptrdiff_t)ERROR_RBTREE_NOT_FOUND));
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
+        retval = slist_pop(barrier->wait_list, &fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+    }
+
     /* Attempt to delete the condition barrier. */
     retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 39f1460f58a40bd8b04bf35cc94d5f9ac335f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 33/43] fix: end the process with status 1 when a fiber's entry
 function returns

The exit status was loaded from memory address 1 instead of being 1, so the
process died of a segmentation fault.
---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From e1d8af1efb66e38a4de99ca7b2e204c08db3d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 34/43] fix: call the user's setsockopt method of a socket made
 from user methods

psock_setsockopt reported the method as undefined although the user had
supplied it.
---
 src/psock/psock_create_from_user_methods.c | 39 +++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 8fb38ca..993789e 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -34,6 +34,9 @@ static status psock_from_user_methods_sendmsg(
     psock* sock, void* ctx, const struct msghdr* msg, int flags);
 static status psock_from_user_methods_recvmsg(
     psock* sock, void* ctx, struct msghdr* msg, size_t* len, int flags);
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len);
 
 /* the vtable entry for the psock from user methods instance. */
 RCPR_VTABLE
@@ -44,7 +47,7 @@ psock_vtable psock_from_user_methods_vtable = {
     .accept_fn = &psock_from_user_methods_accept,
     .sendmsg_fn = &psock_from_user_methods_sendmsg,
     .recvmsg_fn = &psock_from_user_methods_recvmsg,
-    .setsockopt_fn = NULL,
+    .setsockopt_fn = &psock_from_user_methods_setsockopt,
     .release_fn = NULL,
 };
 
@@ -320,3 +323,37 @@ static status psock_from_user_methods_recvmsg(
 
     return ps->user_vtable->recvmsg_fn(sock, ps->hdr.context, msg, len, flags);
 }
+
+/**
+ * \brief Set a socket option on a user socket.
+ *
+ * \param sock          The socket instance for this operation.
+ * \param ctx           The user context for this instance.
+ * \param level         The protocol level at which the option resides.
+ * \param option_name   The option to set.
+ * \param option_value  The value to which this option is set.
+ * \param option_len    The length of this option in bytes.
+ *
+ * \returns a status code indicating success or failure.
+ *      - STATUS_SUCCESS on success.
+ *      - an error code indicating a specific failure condition.
+ */
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len)
+{
+    (void)ctx;
+    psock_from_user_methods* ps = (psock_from_user_methods*)sock;
+
+    /* verify that the setsockopt function is set. */
+    if (NULL == ps->user_vtable->setsockopt_fn)
+    {
+        return ERROR_PSOCK_METHOD_UNDEFINED;
+    }
+
+    /* call the user method. */
+    return
+        ps->user_vtable->setsockopt_fn(
+            sock, ps->hdr.context, level, option_name, option_value,
+            option_len);
+}
-- 
2.43.0


From 6b26536a6cd016cc1337269d6a7368fd6a3de901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 35/43] fix: refuse a method table at the end of its section

The section's end symbol names the first byte after it.
---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From 6c07bbeb8f30625ef98a4fd02ff9fb1e59226439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 36/43] fix: set the output of a failing trigger construction
 to NULL

---
 src/auto_reset_trigger/auto_reset_trigger_create.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_create.c b/src/auto_reset_trigger/auto_reset_trigger_create.c
index d71dbb2..8782c2b 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_create.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_create.c
@@ -68,6 +68,9 @@ RCPR_SYM(auto_reset_trigger_create)(
     RCPR_MODEL_ASSERT(NULL != trigger);
     RCPR_MODEL_ASSERT(prop_allocator_valid(alloc));
 
+    /* nothing is given out unless this succeeds. */
+    *trigger = NULL;
+
     /* attempt to allocate memory for this auto_reset_trigger instance. */
     retval = allocator_allocate(alloc, (void**)&tmp, sizeof(*tmp));
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 541a9bd5baf5560be104a9e56270e1f7bce9e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 37/43] fix: set the output of a failing bigint construction to
 NULL

---
 src/bigint/bigint_clone.c       | 3 +++
 src/bigint/bigint_create_zero.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/bigint/bigint_clone.c b/src/bigint/bigint_clone.c
index 83badd7..5318b8c 100644
--- a/src/bigint/bigint_clone.c
+++ b/src/bigint/bigint_clone.c
@@ -59,6 +59,9 @@ RCPR_SYM(bigint_clone)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_bigint_valid(j));
 
+    /* nothing is given out unless this succeeds. */
+    *i = NULL;
+
     /* attempt to allocate memory for the cloned bigint instacne. */
     bigint* tmp = NULL;
     retval =
diff --git a/src/bigint/bigint_create_zero.c b/src/bigint/bigint_create_zero.c
index d7a1010..fed9f1f 100644
--- a/src/bigint/bigint_create_zero.c
+++ b/src/bigint/bigint_create_zero.c
@@ -71,6 +71,9 @@ RCPR_SYM(bigint_create_zero)(
     RCPR_MODEL_ASSERT(NULL != i);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* nothing is given out unless this succeeds. */
+    *i = NULL;
+
     /* compute the size in bytes based on the bit size. */
     size_t byte_size = size / 8;
 
-- 
2.43.0


From 58c23b5bfeaecea3e2b1a31fbae1c14adac15e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 38/43] fix: set the output of a failing container construction
 to NULL

---
 src/list/list_create.c     | 3 +++
 src/queue/queue_create.c   | 3 +++
 src/rbtree/rbtree_create.c | 3 +++
 src/slist/slist_create.c   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/list/list_create.c b/src/list/list_create.c
index e4af394..32e3a33 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(list_create)(
     /* function contract preconditions. */
     RCPR_MODEL_CONTRACT_CHECK_PRECONDITIONS(RCPR_SYM(list_create), l, a);
 
+    /* nothing is given out unless this succeeds. */
+    *l = NULL;
+
     /* attempt to allocate memory for this list. */
     list* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(list));
diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 23b4089..62f55d1 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(queue_create)(
     RCPR_MODEL_ASSERT(NULL != q);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* nothing is given out unless this succeeds. */
+    *q = NULL;
+
     /* attempt to allocate memory for this queue. */
     queue* tmp = NULL;
     status retval = allocator_allocate(a, (void**)&tmp, sizeof(queue));
diff --git a/src/rbtree/rbtree_create.c b/src/rbtree/rbtree_create.c
index 3dfc092..d330ce9 100644
--- a/src/rbtree/rbtree_create.c
+++ b/src/rbtree/rbtree_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(rbtree_create)(
     RCPR_MODEL_ASSERT(NULL != tree);
     RCPR_MODEL_ASSERT(NULL != a);
 
+    /* nothing is given out unless this succeeds. */
+    *tree = NULL;
+
     /* attempt to allocate memory for this rbtree instance. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(rbtree));
     if (STATUS_SUCCESS != retval)
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index c6c8321..b2ea367 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -67,6 +67,9 @@ RCPR_SYM(slist_create)(
     RCPR_MODEL_ASSERT(NULL != list);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* nothing is given out unless this succeeds. */
+    *list = NULL;
+
     /* attempt to allocate memory for this slist. */
     slist* l = NULL;
     int retval =
-- 
2.43.0


From dc87cb2b38eec2daafa725b3958301424ed42844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 39/43] fix: set the output of a failing socket construction to
 NULL

---
 src/psock/psock_br_create_from_psock.c          | 3 +++
 src/psock/psock_create_from_buffer.c            | 3 +++
 src/psock/psock_create_from_descriptor.c        | 3 +++
 src/psock/psock_create_from_hostname_and_port.c | 3 +++
 src/psock/psock_create_from_listen_address.c    | 3 +++
 src/psock/psock_create_from_user_methods.c      | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 852bcfc..0f51277 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -77,6 +77,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
 
+    /* nothing is given out unless this succeeds. */
+    *br = NULL;
+
     /* attempt to allocate memory for this buffered psock. */
     psock_br* tmp = NULL;
     retval = allocator_allocate(a, (void**)&tmp, sizeof(psock_br));
diff --git a/src/psock/psock_create_from_buffer.c b/src/psock/psock_create_from_buffer.c
index 7369902..11c0e9f 100644
--- a/src/psock/psock_create_from_buffer.c
+++ b/src/psock/psock_create_from_buffer.c
@@ -89,6 +89,9 @@ RCPR_SYM(psock_create_from_buffer)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT((buffer != NULL) || (buffer == NULL && size == 0));
 
+    /* nothing is given out unless this succeeds. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this buffer psock. */
     psock_from_buffer* ps = NULL;
     retval = allocator_allocate(a, (void**)&ps, sizeof(psock_from_buffer));
diff --git a/src/psock/psock_create_from_descriptor.c b/src/psock/psock_create_from_descriptor.c
index 3994f1a..2cbe603 100644
--- a/src/psock/psock_create_from_descriptor.c
+++ b/src/psock/psock_create_from_descriptor.c
@@ -84,6 +84,9 @@ RCPR_SYM(psock_create_from_descriptor)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(descriptor >= 0);
 
+    /* nothing is given out unless this succeeds. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this descriptor psock. */
     psock_from_descriptor* ps = NULL;
     int retval =
diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index 37ad468..3ad55b7 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -76,6 +76,9 @@ RCPR_SYM(psock_create_from_hostname_and_port)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != hostname);
 
+    /* nothing is given out unless this succeeds. */
+    *sock = NULL;
+
     /* attempt to resolve this as an IPv4 address. */
     resolved = gethostbyname2(hostname, AF_INET);
     if (NULL != resolved)
diff --git a/src/psock/psock_create_from_listen_address.c b/src/psock/psock_create_from_listen_address.c
index 7d7c4f8..3f252e5 100644
--- a/src/psock/psock_create_from_listen_address.c
+++ b/src/psock/psock_create_from_listen_address.c
@@ -73,6 +73,9 @@ RCPR_SYM(psock_create_from_listen_address)(
     RCPR_MODEL_ASSERT(NULL != name);
     RCPR_MODEL_ASSERT(prop_valid_range(name, namelen));
 
+    /* nothing is given out unless this succeeds. */
+    *sock = NULL;
+
     /* Create a socket for this address. */
     int desc = socket(AF_INET, SOCK_STREAM, 0);
     if (desc < 0)
diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 993789e..d036228 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -102,6 +102,9 @@ RCPR_SYM(psock_create_from_user_methods)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != vtable);
 
+    /* nothing is given out unless this succeeds. */
+    *sock = NULL;
+
     /* attempt to allocate memory for this user psock. */
     psock_from_user_methods* ps = NULL;
     int retval = allocator_allocate(a, (void**)&ps, sizeof(*ps));
-- 
2.43.0


From 0370ad3270055726801c9d2a865352f7f645d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 40/43] fix: set the output of a failing fiber construction to
 NULL

---
 src/fiber/common/fiber_create.c                            | 3 +++
 src/fiber/common/fiber_create_for_thread.c                 | 3 +++
 src/fiber/common/fiber_scheduler_create.c                  | 3 +++
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 3 +++
 src/fiber/common/fiber_scheduler_discipline_create.c       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/fiber/common/fiber_create.c b/src/fiber/common/fiber_create.c
index 18bd1cf..c3ea4c3 100644
--- a/src/fiber/common/fiber_create.c
+++ b/src/fiber/common/fiber_create.c
@@ -83,6 +83,9 @@ RCPR_SYM(fiber_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* nothing is given out unless this succeeds. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_create_for_thread.c b/src/fiber/common/fiber_create_for_thread.c
index 137692d..5529fd2 100644
--- a/src/fiber/common/fiber_create_for_thread.c
+++ b/src/fiber/common/fiber_create_for_thread.c
@@ -72,6 +72,9 @@ RCPR_SYM(fiber_create_for_thread)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != fib);
 
+    /* nothing is given out unless this succeeds. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create.c b/src/fiber/common/fiber_scheduler_create.c
index b597700..033ad4e 100644
--- a/src/fiber/common/fiber_scheduler_create.c
+++ b/src/fiber/common/fiber_scheduler_create.c
@@ -78,6 +78,9 @@ RCPR_SYM(fiber_scheduler_create)(
     RCPR_MODEL_ASSERT(NULL != sched);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* nothing is given out unless this succeeds. */
+    *sched = NULL;
+
     /* attempt to allocate memory for this fiber_scheduler. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber_scheduler));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index f2d9426..275c319 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -138,6 +138,9 @@ RCPR_SYM(fiber_scheduler_create_with_disciplines)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != sched);
 
+    /* nothing is given out unless this succeeds. */
+    *sched = NULL;
+
     /* attempt to allocate memory for the fiber scheduler context. */
     retval =
         allocator_allocate(
diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..3dbc384 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -86,6 +86,9 @@ RCPR_SYM(fiber_scheduler_discipline_create)(
             callback_vector,
             callbacks * sizeof(fiber_scheduler_discipline_callback_fn)));
 
+    /* nothing is given out unless this succeeds. */
+    *disc = NULL;
+
     /* attempt to allocate memory for this fiber scheduler discipline. */
     retval =
         allocator_allocate(alloc, (void**)&tmp,
-- 
2.43.0


From 98d80ba2953f56368f2e536e869b943b7cc5179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 41/43] fix: set the output of a failing thread or stack
 construction to NULL

---
 src/platform/pthread/thread/thread_cond_create.c        | 3 +++
 src/platform/pthread/thread/thread_create.c             | 3 +++
 src/platform/pthread/thread/thread_mutex_create.c       | 3 +++
 src/platform/pthread/thread/thread_mutex_lock_acquire.c | 1 +
 src/stack/stack_create.c                                | 3 +++
 5 files changed, 13 insertions(+)

diff --git a/src/platform/pthread/thread/thread_cond_create.c b/src/platform/pthread/thread/thread_cond_create.c
index 549fbe7..b1281b0 100644
--- a/src/platform/pthread/thread/thread_cond_create.c
+++ b/src/platform/pthread/thread/thread_cond_create.c
@@ -69,6 +69,9 @@ RCPR_SYM(thread_cond_create)(
     RCPR_MODEL_ASSERT(NULL != cond);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* nothing is given out unless this succeeds. */
+    *cond = NULL;
+
     /* attempt to allocate memory for this condition variable. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_cond));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_create.c b/src/platform/pthread/thread/thread_create.c
index f2caa3a..51f7b81 100644
--- a/src/platform/pthread/thread/thread_create.c
+++ b/src/platform/pthread/thread/thread_create.c
@@ -84,6 +84,9 @@ RCPR_SYM(thread_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* nothing is given out unless this succeeds. */
+    *th = NULL;
+
     /* create a thread attribute structure. */
     retval = pthread_attr_init(&attr);
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_create.c b/src/platform/pthread/thread/thread_mutex_create.c
index ab52a9e..1bd7364 100644
--- a/src/platform/pthread/thread/thread_mutex_create.c
+++ b/src/platform/pthread/thread/thread_mutex_create.c
@@ -76,6 +76,9 @@ RCPR_SYM(thread_mutex_create)(
     RCPR_MODEL_ASSERT(NULL != mut);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* nothing is given out unless this succeeds. */
+    *mut = NULL;
+
     /* attempt to allocate memory for this mutex. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_mutex));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_lock_acquire.c b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
index cacf671..8c5e75c 100644
--- a/src/platform/pthread/thread/thread_mutex_lock_acquire.c
+++ b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
@@ -63,6 +63,7 @@ RCPR_SYM(thread_mutex_lock_acquire)(
     retval = pthread_mutex_lock(&mut->mutex);
     if (STATUS_SUCCESS != retval)
     {
+        *lock = NULL;
         return ERROR_THREAD_MUTEX_LOCK;
     }
 
diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index 7126711..4303c98 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -85,6 +85,9 @@ RCPR_SYM(stack_create)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(stack_size > 0);
 
+    /* nothing is given out unless this succeeds. */
+    *st = NULL;
+
     /* attempt to allocate memory for this stack. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(stack));
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From d3cff464150ed0b2b98eac68d8372b381cd0bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 42/43] fix: report a node that a pop cannot give back

The pop answered success when the node's release failed, and released a
resource that was not there.
---
 src/list/list_pop.c             | 13 ++++++++-----
 src/slist/slist_node_next_pop.c | 13 ++++++++-----
 src/slist/slist_pop.c           | 13 ++++++++-----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..1b8fd35 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -108,12 +108,15 @@ RCPR_SYM(list_pop)(
             /* on failure, *r is set to NULL. */
             *r = NULL;
 
-            /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            /* clean up the resource, if there is one. */
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..9519bef 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -107,12 +107,15 @@ RCPR_SYM(slist_node_next_pop)(
             /* on failure, *r is set to NULL. */
             *r = NULL;
 
-            /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            /* clean up the resource, if there is one. */
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..45c7ade 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -103,12 +103,15 @@ RCPR_SYM(slist_pop)(
             /* on failure, *r is set to NULL. */
             *r = NULL;
 
-            /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            /* clean up the resource, if there is one. */
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status release_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != release_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return release_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From dfd9fb9a5e220b4b585d36d46cfd10dccc3e8c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 43/43] fix: give out no resource from a tree deletion that
 fails

---
 src/rbtree/rbtree_delete.c      | 19 +++++++++++++++++--
 src/rbtree/rbtree_delete_node.c | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index 85113be..cbe85a7 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -80,7 +80,22 @@ RCPR_SYM(rbtree_delete)(
         node->value = NULL;
     }
 
-    /* clean up the node, returning the cleanup status to the caller. */
-    return
+    /* clean up the node. */
+    status release_retval =
         resource_release(rbtree_node_resource_handle(node));
+    if (STATUS_SUCCESS != release_retval && NULL != r && NULL != *r)
+    {
+        /* on failure, the resource is released and *r is set to NULL. */
+        resource* cleanup_resource = *r;
+        *r = NULL;
+
+        status cleanup_retval = resource_release(cleanup_resource);
+        if (STATUS_SUCCESS != cleanup_retval)
+        {
+            return cleanup_retval;
+        }
+    }
+
+    /* return the cleanup status to the caller. */
+    return release_retval;
 }
diff --git a/src/rbtree/rbtree_delete_node.c b/src/rbtree/rbtree_delete_node.c
index 8889315..c7f7e27 100644
--- a/src/rbtree/rbtree_delete_node.c
+++ b/src/rbtree/rbtree_delete_node.c
@@ -68,7 +68,22 @@ RCPR_SYM(rbtree_delete_node)(
         node->value = NULL;
     }
 
-    /* clean up the node, returning the cleanup status to the caller. */
-    return
+    /* clean up the node. */
+    status release_retval =
         resource_release(rbtree_node_resource_handle(node));
+    if (STATUS_SUCCESS != release_retval && NULL != r && NULL != *r)
+    {
+        /* on failure, the resource is released and *r is set to NULL. */
+        resource* cleanup_resource = *r;
+        *r = NULL;
+
+        status cleanup_retval = resource_release(cleanup_resource);
+        if (STATUS_SUCCESS != cleanup_retval)
+        {
+            return cleanup_retval;
+        }
+    }
+
+    /* return the cleanup status to the caller. */
+    return release_retval;
 }
-- 
2.43.0

