From 279d703a83a26ba81795c3a0c4b1728a8de3c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 01/38] fix: last unref racing a weak-to-full reference
 conversion

A thread dropping the last reference had no claim on the object between
its decrement and taking the object lock. A weak reference could extend
liveness and release again on another thread which finalized the object
underneath it (use-after-free), or the watermark sampled before the
decrement could be stale so that nobody finalized the object (leak).

Announce the thread before it drops what might be the last reference, and
let the last announced thread finalize the object.
---
 src/dex-object-private.h |  1 +
 src/dex-object.c         | 63 ++++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/dex-object-private.h b/src/dex-object-private.h
index 81a2f36..558895f 100644
--- a/src/dex-object-private.h
+++ b/src/dex-object-private.h
@@ -96,6 +96,7 @@ typedef struct _DexObject
   DexWeakRef      *weak_refs;
   guint            weak_refs_watermark;
   _Atomic int      ref_count;
+  int              unref_pending;
 #ifdef HAVE_SYSPROF
   gint64           ctime;
 #endif
diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..c3ce79c 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -91,36 +91,41 @@ dex_unref (gpointer object)
   DexObject *obj = object;
   DexObjectClass *object_class;
   DexWeakRef *weak_refs;
-  guint watermark;
+  gboolean is_last;
+  int ref_count;
 
   g_return_if_fail (object != NULL);
   g_return_if_fail (DEX_IS_OBJECT (object));
 
-  /* Fetch a watermark before we decrement so that we can be
-   * sure that if we reached zero, that anything that extended
-   * the life of the mem_block will be responsible to free
-   * the object in the end.
+  /* If this is not the last reference, then there is nothing
+   * for this thread to do but drop it. Fast path.
    */
-  watermark = g_atomic_int_get (&obj->weak_refs_watermark);
-
-  /* If we decrement and it's not zero, then there is nothing
-   * for this thread to do. Fast path.
-   */
-  if G_LIKELY (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release) != 1)
-    return;
-
-  atomic_thread_fence (memory_order_acquire);
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_relaxed);
+  while G_LIKELY (ref_count > 1)
+    {
+      if (atomic_compare_exchange_weak_explicit (&obj->ref_count,
+                                                 &ref_count,
+                                                 ref_count - 1,
+                                                 memory_order_release,
+                                                 memory_order_relaxed))
+        return;
+    }
 
   object_class = DEX_OBJECT_GET_CLASS (object);
 
-  /* We reached zero. We need to go through our weak references and
-   * acquire each of their mutexes so that we can be sure none of them
-   * have raced against us to increment the value beyond 0. If they did,
-   * then we can bail early and ignore any request to finalize.
-   *
-   * If the watermark is beyond ours, then we know that the weak-ref
-   * extended liveness beyond this call and we are not responsible
-   * for finalizing this object.
+  /* We may drop the last reference. A DexWeakRef can extend liveness after
+   * that and the resulting full reference may be released by another thread
+   * while we are still looking at @object below. Announce ourselves while we
+   * still own a reference so that only the last thread to get through here
+   * will finalize @object.
+   */
+  g_atomic_int_inc (&obj->unref_pending);
+  atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_acq_rel);
+
+  /* We need to go through our weak references and acquire each of their
+   * mutexes so that we can be sure none of them have raced against us to
+   * increment the value beyond 0. If they did, then we can bail early and
+   * ignore any request to finalize.
    */
   dex_object_lock (object);
   for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
@@ -129,10 +134,14 @@ dex_unref (gpointer object)
   /* If we increased our reference count on another thread by extending the
    * lifetime of the mem_block using a weak_ref-to-full_ref, then we don't need
    * to do anything here. Just bail and move along allowing a future unref to
-   * finalize when it once again approaches zero.
+   * finalize when it once again approaches zero. Same goes for when there is
+   * another thread about to get here. The order matters, nobody can announce
+   * themselves anymore once there are no more references.
    */
-  if (g_atomic_int_get (&obj->ref_count) > 0 ||
-      g_atomic_int_get (&obj->weak_refs_watermark) != watermark)
+  is_last = g_atomic_int_get (&obj->ref_count) == 0;
+  is_last &= g_atomic_int_dec_and_test (&obj->unref_pending);
+
+  if (!is_last)
     {
       for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
         g_mutex_unlock (&wr->mutex);
@@ -161,9 +170,7 @@ dex_unref (gpointer object)
 
   dex_object_unlock (object);
 
-  /* If we did not create an immortal ref, then we are safe to finalize */
-  if (g_atomic_int_get (&obj->ref_count) == 0)
-    object_class->finalize (object);
+  object_class->finalize (object);
 }
 
 static void
-- 
2.43.0


From 67becdeb29592d2be8db0b2f6880e1f51dec9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 02/38] fix: lock order inversion between dex_unref() and
 dex_weak_ref_set()

dex_unref() acquires the object mutex and then the mutex of every weak
ref, while attaching/detaching a weak ref acquired them the other way
around. dex_future_complete() detaches the weak ref of a chained future,
so completing a future while that chained future is released on another
thread could deadlock.
---
 src/dex-object.c | 92 +++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/dex-object.c b/src/dex-object.c
index c3ce79c..d65f34c 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -195,33 +195,46 @@ dex_object_init (DexObject      *self,
   self->weak_refs_watermark = 1;
 }
 
-static void
+/* The mutex of an object must always be acquired before the mutex of a
+ * weak ref pointing at it, as that is the order needed by dex_unref().
+ */
+static gboolean
 dex_object_add_weak (gpointer    mem_block,
-                      DexWeakRef *weak_ref)
+                     DexWeakRef *weak_ref)
 {
   DexObject *object = mem_block;
+  gboolean ret = FALSE;
 
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
-  g_assert (weak_ref->prev == NULL);
-  g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
 
   /* Must own a full ref to acquire a weak ref */
-  g_return_if_fail (object->ref_count > 0);
+  g_return_val_if_fail (object->ref_count > 0, TRUE);
 
   dex_object_lock (object);
-  weak_ref->prev = NULL;
-  weak_ref->next = object->weak_refs;
-  if (object->weak_refs != NULL)
-    object->weak_refs->prev = weak_ref;
-  object->weak_refs = weak_ref;
+  g_mutex_lock (&weak_ref->mutex);
+  if (weak_ref->mem_block == NULL)
+    {
+      g_assert (weak_ref->prev == NULL);
+      g_assert (weak_ref->next == NULL);
+
+      weak_ref->mem_block = mem_block;
+      weak_ref->prev = NULL;
+      weak_ref->next = object->weak_refs;
+      if (object->weak_refs != NULL)
+        object->weak_refs->prev = weak_ref;
+      object->weak_refs = weak_ref;
+      ret = TRUE;
+    }
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
+
+  return ret;
 }
 
 static void
 dex_object_remove_weak (gpointer    mem_block,
-                         DexWeakRef *weak_ref)
+                        DexWeakRef *weak_ref)
 {
   DexObject *object = mem_block;
 
@@ -232,23 +245,28 @@ dex_object_remove_weak (gpointer    mem_block,
   g_return_if_fail (object->ref_count > 0);
 
   dex_object_lock (object);
+  g_mutex_lock (&weak_ref->mutex);
 
-  if (weak_ref->prev != NULL)
-    weak_ref->prev->next = weak_ref->next;
+  if (weak_ref->mem_block == mem_block)
+    {
+      if (weak_ref->prev != NULL)
+        weak_ref->prev->next = weak_ref->next;
 
-  if (weak_ref->next != NULL)
-    weak_ref->next->prev = weak_ref->prev;
+      if (weak_ref->next != NULL)
+        weak_ref->next->prev = weak_ref->prev;
 
-  if (object->weak_refs == weak_ref)
-    object->weak_refs = weak_ref->next;
+      if (object->weak_refs == weak_ref)
+        object->weak_refs = weak_ref->next;
 
-  g_assert (object->weak_refs == NULL ||
-            object->weak_refs->prev == NULL);
+      g_assert (object->weak_refs == NULL ||
+                object->weak_refs->prev == NULL);
 
-  weak_ref->next = NULL;
-  weak_ref->prev = NULL;
-  weak_ref->mem_block = NULL;
+      weak_ref->next = NULL;
+      weak_ref->prev = NULL;
+      weak_ref->mem_block = NULL;
+    }
 
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
 }
 
@@ -415,22 +433,24 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
-
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
-
-  if (old_mem_block != mem_block)
+  /* weak_ref->mutex cannot be held while detaching from or attaching to an
+   * object, so try again if another thread attached @weak_ref meanwhile.
+   */
+  do
     {
+      old_mem_block = dex_weak_ref_get (weak_ref);
+
       if (old_mem_block != NULL)
-        dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
-      if (mem_block != NULL)
-        dex_object_add_weak (mem_block, weak_ref);
+        {
+          if (old_mem_block != mem_block)
+            dex_object_remove_weak (old_mem_block, weak_ref);
+          else
+            mem_block = NULL;
+
+          dex_unref (old_mem_block);
+        }
     }
-
-  g_mutex_unlock (&weak_ref->mutex);
-
-  dex_clear (&old_mem_block);
+  while (mem_block != NULL && !dex_object_add_weak (mem_block, weak_ref));
 }
 
 static void
-- 
2.43.0


From e396f0eca97272b141c8faa393dfadf7a88a2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 03/38] fix: do not discard a future other futures are still
 awaiting

dex_future_discard() only looked at the entries it just removed when
checking for remaining futures awaiting the result, so the first of many
dependents to lose interest cancelled the operation for all of them.
---
 src/dex-future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..fd9984d 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -425,11 +425,13 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else
+        {
+          has_awaiting |= cf->awaiting;
+        }
     }
 
   dex_object_unlock (future);
-- 
2.43.0


From 9866ee83bc40a0bf19b3c7166d60cca937b0c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 04/38] fix: discard the awaited future when a DexBlock is
 released

A DexFutureSet discards its futures when it is finalized, but a DexBlock
merely dropped its reference. Releasing the last reference to a
then/catch/finally never cancelled what it was waiting on, and warned
about a timeout being destroyed while active.
---
 src/dex-block.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 3203ff8..eb3c26c 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -217,6 +217,13 @@ static void
 dex_block_finalize (DexObject *object)
 {
   DexBlock *block = DEX_BLOCK (object);
+  DexFuture *awaiting = g_steal_pointer (&block->awaiting);
+
+  if (awaiting != NULL)
+    {
+      dex_future_discard (awaiting, DEX_FUTURE (block));
+      dex_unref (awaiting);
+    }
 
   if (block->callback_data_destroy)
     {
@@ -226,7 +233,6 @@ dex_block_finalize (DexObject *object)
       block->callback = NULL;
     }
 
-  dex_clear (&block->awaiting);
   dex_clear (&block->scheduler);
 
   DEX_OBJECT_CLASS (dex_block_parent_class)->finalize (object);
-- 
2.43.0


From df073015ec2f2cc94abf6c400d3c1a86b7a6f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 05/38] fix: outcome of a future set whose futures complete
 concurrently

The last future to propagate decided the outcome on its own status, even
if another thread was about to propagate the decisive result: an
any()-style set could reject though a future resolved, and an
all_race()-style set could resolve though a future rejected.
---
 src/dex-future-set.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..862fa07 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -46,7 +46,8 @@ typedef struct _DexFutureSet
   guint               n_resolved;
   guint               n_rejected;
   DexFutureSetFlags   flags : 4;
-  guint               padding : 28;
+  guint               decided : 1;
+  guint               padding : 27;
   /* If n_futures <= 2, we use this instead of mallocing. We could
    * potentially get a 3rd without breaking 2-cachelines (128 bytes)
    * if we used a bit above to manage a union of futures/embedded.
@@ -73,7 +74,7 @@ dex_future_set_propagate (DexFuture *future,
   DexFutureSet *future_set = DEX_FUTURE_SET (future);
   const GValue *resolved = NULL;
   DexFutureStatus status;
-  gboolean do_discard = FALSE;
+  gboolean do_complete = FALSE;
   GError *rejected = NULL;
   guint n_active = 0;
 
@@ -112,12 +113,25 @@ dex_future_set_propagate (DexFuture *future,
   g_assert (future_set->n_resolved + future_set->n_rejected <= future_set->n_futures);
   g_assert (rejected != NULL || resolved != NULL);
 
+  /* Decide who completes the set while we have the lock. Futures may complete
+   * on multiple threads and the last of them must not overrule a result which
+   * is about to be propagated by another thread.
+   */
+  if (n_active == 0)
+    do_complete = TRUE;
+  else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
+    do_complete = (resolved && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0) ||
+                  (rejected && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0);
+
+  if (future_set->decided)
+    do_complete = FALSE;
+  else if (do_complete)
+    future_set->decided = TRUE;
+
   dex_object_unlock (future_set);
 
-  if (n_active == 0)
+  if (do_complete)
     {
-      do_discard = TRUE;
-
       if (resolved != NULL)
         {
           if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE)
@@ -137,21 +151,10 @@ dex_future_set_propagate (DexFuture *future,
                                                       "Too many futures failed"));
         }
     }
-  else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
-    {
-      do_discard = TRUE;
-
-      if (resolved && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0)
-        dex_future_complete (future, resolved, NULL);
-      else if (rejected && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0)
-        dex_future_complete (future, NULL, g_steal_pointer (&rejected));
-      else
-        do_discard = FALSE;
-    }
 
   g_clear_error (&rejected);
 
-  if (do_discard)
+  if (do_complete)
     {
       if (dex_future_get_status (future) != DEX_FUTURE_STATUS_PENDING)
         {
-- 
2.43.0


From 9c902bee0d397cdc275870a7478da95062ba3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 06/38] fix: dex_future_all() outcome depending on completion
 order

dex_future_all() resolved although dependent futures were rejected so long
as the last one to complete was resolved. It is documented to resolve when
all futures resolve.
---
 src/dex-future-set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 862fa07..0173502 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -132,7 +132,12 @@ dex_future_set_propagate (DexFuture *future,
 
   if (do_complete)
     {
-      if (resolved != NULL)
+      /* Without PROPAGATE_FIRST all of the futures have to resolve, no matter
+       * in what order they completed.
+       */
+      if (resolved != NULL &&
+          ((future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST) != 0 ||
+           future_set->n_rejected == 0))
         {
           if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE)
             dex_future_complete (future, resolved, NULL);
-- 
2.43.0


From 9ae0b4bf98571f9acaad83cfb0f8baa8c03a10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 07/38] fix: keep a future sent through a channel alive until
 received

dex_channel_send() takes ownership of the future but it was released as
soon as it was paired with a receiver, even if it was still pending, so
the receiver would never complete.
---
 src/dex-channel.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..6980ace 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -42,6 +42,11 @@ typedef struct _DexChannelReceiver
 {
   DexFuture parent_instance;
   GList link;
+
+  /* The future which was sent with dex_channel_send(). It is possibly
+   * pending and there may be nobody else to keep it alive.
+   */
+  DexFuture *awaiting;
 } DexChannelReceiver;
 
 typedef struct _DexChannelReceiverClass
@@ -73,9 +78,27 @@ steal_queue (GQueue *queue)
   };
 }
 
+static void
+dex_channel_receiver_finalize (DexObject *object)
+{
+  DexChannelReceiver *channel_receiver = (DexChannelReceiver *)object;
+
+  if (channel_receiver->awaiting != NULL)
+    {
+      dex_future_discard (channel_receiver->awaiting, DEX_FUTURE (channel_receiver));
+      dex_clear (&channel_receiver->awaiting);
+    }
+
+  DEX_OBJECT_CLASS (dex_channel_receiver_parent_class)->finalize (object);
+}
+
 static void
 dex_channel_receiver_class_init (DexChannelReceiverClass *channel_receiver_class)
 {
+  DexObjectClass *object_class = DEX_OBJECT_CLASS (channel_receiver_class);
+
+  object_class->finalize = dex_channel_receiver_finalize;
+
   success_value = (GValue) {G_TYPE_BOOLEAN, {{.v_int = TRUE}}};
 }
 
@@ -298,6 +321,7 @@ dex_channel_one_receive_and_unlock (DexChannel *channel)
 
   if (item != NULL)
     {
+      recv->awaiting = dex_ref (item->future);
       dex_future_chain (item->future, DEX_FUTURE (recv));
       dex_channel_item_free (item);
       dex_unref (recv);
-- 
2.43.0


From 985e64755affffecc56af94dece9653fba209f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 08/38] fix: dex_channel_receive_all() stalling pending senders

It emptied the queue but did not advance futures waiting for capacity into
it. As nothing else would, receiving from the channel stalled forever.
---
 src/dex-channel.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 6980ace..fa50c8f 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -467,11 +467,13 @@ DexFuture *
 dex_channel_receive_all (DexChannel *channel)
 {
   g_autoptr(GPtrArray) ret = NULL;
+  g_autoptr(GPtrArray) to_resolve = NULL;
   GQueue stolen = G_QUEUE_INIT;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
 
   ret = g_ptr_array_new_with_free_func (dex_unref);
+  to_resolve = g_ptr_array_new_with_free_func (dex_unref);
 
   dex_object_lock (channel);
 
@@ -489,8 +491,19 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* Advance @sendq items into the @queue we just emptied */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      DexChannelItem *item = g_queue_pop_head_link (&channel->sendq)->data;
+      g_queue_push_tail_link (&channel->queue, &item->link);
+      g_ptr_array_add (to_resolve, dex_ref (item->send));
+    }
+
   dex_object_unlock (channel);
 
+  for (guint i = 0; i < to_resolve->len; i++)
+    dex_promise_resolve_uint (g_ptr_array_index (to_resolve, i), i + 1);
+
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
-- 
2.43.0


From b50b8c26e70730cd0e6aab321eb34b0261612bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 09/38] fix: DexDelayed chained to the future it delays the
 wrong way round

dex_delayed_new() registered the delayed future's outcome with the wrapped
future instead of the other way round: releasing it before the wrapped
future had completed rejected it with 'Future is still pending' and then
completed the wrapped future from it.
---
 src/dex-delayed.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..6248f8e 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -53,6 +53,7 @@ dex_delayed_propagate (DexFuture *future,
                        DexFuture *completed)
 {
   DexDelayed *delayed = DEX_DELAYED (future);
+  DexFuture *awaiting = NULL;
   gboolean ret = FALSE;
 
   g_assert (DEX_IS_DELAYED (delayed));
@@ -62,9 +63,11 @@ dex_delayed_propagate (DexFuture *future,
   if (delayed->corked)
     ret = TRUE;
   else
-    dex_clear (&delayed->future);
+    awaiting = g_steal_pointer (&delayed->future);
   dex_object_unlock (delayed);
 
+  dex_clear (&awaiting);
+
   return ret;
 }
 
@@ -91,8 +94,13 @@ static void
 dex_delayed_finalize (DexObject *object)
 {
   DexDelayed *delayed = DEX_DELAYED (object);
+  DexFuture *awaiting = g_steal_pointer (&delayed->future);
 
-  dex_clear (&delayed->future);
+  if (awaiting != NULL)
+    {
+      dex_future_discard (awaiting, DEX_FUTURE (delayed));
+      dex_unref (awaiting);
+    }
 
   DEX_OBJECT_CLASS (dex_delayed_parent_class)->finalize (object);
 }
@@ -125,7 +133,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -142,14 +150,29 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+      if (delayed->future != NULL)
+        complete = dex_ref (delayed->future);
     }
 
   dex_object_unlock (delayed);
 
   if (complete != NULL)
     {
-      dex_future_complete_from (DEX_FUTURE (delayed), complete);
+      DexFuture *awaiting = NULL;
+
+      /* A future which is still pending completes us from
+       * dex_delayed_propagate() now that we are no longer corked.
+       */
+      if (!dex_future_is_pending (complete))
+        {
+          dex_object_lock (delayed);
+          awaiting = g_steal_pointer (&delayed->future);
+          dex_object_unlock (delayed);
+
+          dex_future_complete_from (DEX_FUTURE (delayed), complete);
+        }
+
+      dex_clear (&awaiting);
       dex_clear (&complete);
     }
 }
@@ -174,7 +197,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From 0390fe0e02431a5f3ac1a6be5cd530abd3a10b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 10/38] fix: work items lost or run twice by thread pool
 workers

Positions in a DexWorkStealingArray are masked with capacity-1, which only
works for powers of two. The workers ask for 255 and so used the same slot
for neighbouring positions.
---
 src/dex-work-stealing-queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index ef58cca..38de919 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -30,6 +30,11 @@ DexWorkStealingQueue *
 dex_work_stealing_queue_new (gint64 capacity)
 {
   DexWorkStealingQueue *work_stealing_queue;
+  gint64 array_capacity = 1;
+
+  /* Positions are masked with capacity-1, so it must be a power of two */
+  while (array_capacity < capacity)
+    array_capacity *= 2;
 
   work_stealing_queue = g_aligned_alloc0 (1,
                                           sizeof (DexWorkStealingQueue),
@@ -37,7 +42,7 @@ dex_work_stealing_queue_new (gint64 capacity)
   atomic_store_explicit (&work_stealing_queue->top, 0, memory_order_relaxed);
   atomic_store_explicit (&work_stealing_queue->bottom, 0, memory_order_relaxed);
   atomic_store_explicit (&work_stealing_queue->array,
-                         dex_work_stealing_array_new (capacity),
+                         dex_work_stealing_array_new (array_capacity),
                          memory_order_relaxed);
   work_stealing_queue->garbage = g_ptr_array_new_full (32, (GDestroyNotify)dex_work_stealing_array_free);
   g_atomic_ref_count_init (&work_stealing_queue->ref_count);
-- 
2.43.0


From 39a26296ed495d56f7107e542367b2cec749a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 11/38] fix: release the work stealing queue with its source

---
 src/dex-work-stealing-queue.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index 38de919..1c407c7 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -124,10 +124,19 @@ dex_work_stealing_queue_source_dispatch (GSource     *source,
   return G_SOURCE_CONTINUE;
 }
 
+static void
+dex_work_stealing_queue_source_finalize (GSource *source)
+{
+  DexWorkStealingQueueSource *real_source = (DexWorkStealingQueueSource *)source;
+
+  g_clear_pointer (&real_source->work_stealing_queue, dex_work_stealing_queue_unref);
+}
+
 static GSourceFuncs dex_work_stealing_queue_source_funcs = {
   .prepare = dex_work_stealing_queue_source_prepare,
   .check = dex_work_stealing_queue_source_check,
   .dispatch = dex_work_stealing_queue_source_dispatch,
+  .finalize = dex_work_stealing_queue_source_finalize,
 };
 
 GSource *
-- 
2.43.0


From 247b4b8e94b590124412538aaf75542f3fdb7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 12/38] fix: stop the threads of a thread pool scheduler when
 it is released

---
 src/dex-thread-pool-scheduler.c      |  3 ++
 src/dex-thread-pool-worker-private.h |  1 +
 src/dex-thread-pool-worker.c         | 43 ++++++++++++++++++++++------
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 7926420..3e307e2 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -127,6 +127,9 @@ dex_thread_pool_scheduler_finalize (DexObject *object)
 {
   DexThreadPoolScheduler *thread_pool_scheduler = (DexThreadPoolScheduler *)object;
 
+  for (guint i = 0; i < thread_pool_scheduler->workers->len; i++)
+    dex_thread_pool_worker_shutdown (g_ptr_array_index (thread_pool_scheduler->workers, i));
+
   dex_clear (&thread_pool_scheduler->global_work_queue);
 
   g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index eae2f78..a2d7be2 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,7 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+void                    dex_thread_pool_worker_shutdown  (DexThreadPoolWorker    *thread_pool_worker);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..fff7551 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -144,13 +144,26 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
   return G_SOURCE_REMOVE;
 }
 
-static void
-dex_thread_pool_worker_finalize (DexObject *object)
+/*
+ * dex_thread_pool_worker_shutdown:
+ * @thread_pool_worker: a #DexThreadPoolWorker
+ *
+ * Requests that the thread of @thread_pool_worker stops and waits for it
+ * to have done so. The thread keeps processing work from the global work
+ * queue until then, which holds a reference to @thread_pool_worker, so it
+ * would never be finalized without this.
+ */
+void
+dex_thread_pool_worker_shutdown (DexThreadPoolWorker *thread_pool_worker)
 {
-  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
   GSource *idle_source;
 
-  g_assert (thread_pool_worker->thread != g_thread_self ());
+  g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
+  /* A thread cannot wait for itself to exit */
+  if (thread_pool_worker->thread == NULL ||
+      thread_pool_worker->thread == g_thread_self ())
+    return;
 
   /* To finalize the worker, we need to push a work item to the thread
    * that will cause it to stop processing and then wait for the thread
@@ -168,7 +181,17 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_source_unref (idle_source);
 
   /* Now wait for the thread to process items and exit the thread */
-  g_thread_join (thread_pool_worker->thread);
+  g_thread_join (g_steal_pointer (&thread_pool_worker->thread));
+}
+
+static void
+dex_thread_pool_worker_finalize (DexObject *object)
+{
+  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
+
+  g_assert (thread_pool_worker->thread != g_thread_self ());
+
+  dex_thread_pool_worker_shutdown (thread_pool_worker);
 
 #ifdef G_ENABLE_DEBUG
   atomic_thread_fence (memory_order_seq_cst);
@@ -181,11 +204,12 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->set_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
 
-  g_clear_pointer (&thread_pool_worker->thread, g_thread_unref);
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
+  g_clear_pointer (&thread_pool_worker->set, dex_thread_pool_worker_set_unref);
 
   dex_clear (&thread_pool_worker->global_work_queue);
 
@@ -330,6 +354,9 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
+  /* Stop stealing from others, the source for that is always ready */
+  g_source_destroy (thread_pool_worker->set_source);
+
   /* Flush out any pending operations */
   while (g_main_context_pending (thread_pool_worker->main_context))
     g_main_context_iteration (thread_pool_worker->main_context, FALSE);
@@ -338,9 +365,9 @@ dex_thread_pool_worker_thread_func (gpointer data)
   dex_thread_pool_worker_set_remove (thread_pool_worker->set, thread_pool_worker);
 
   /* Ensure our sources will not continue on */
-  g_source_destroy (thread_pool_worker->set_source);
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
+  g_source_destroy ((GSource *)thread_pool_worker->aio_context);
 
   thread_pool_worker->status = DEX_THREAD_POOL_WORKER_FINISHED;
   g_main_context_pop_thread_default (thread_pool_worker->main_context);
@@ -521,7 +548,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
   thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (255);
-  thread_pool_worker->set = set;
+  thread_pool_worker->set = dex_thread_pool_worker_set_ref (set);
 
   /* Now spawn our thread to process events via GSource */
   g_mutex_lock (&thread_pool_worker->setup_mutex);
-- 
2.43.0


From 32f8ef87877770c5fb814c20e987def42302965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 13/38] fix: release the waiters left when a semaphore is
 released

---
 src/dex-semaphore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..2c1d60d 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -150,7 +150,8 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
+#endif
+
   while (semaphore->waiters.length > 0)
     {
       DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
@@ -159,7 +160,6 @@ dex_semaphore_finalize (DexObject *object)
                            g_error_copy (&semaphore_closed_error));
       dex_unref (waiter);
     }
-#endif
 
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
-- 
2.43.0


From 03791facf51810a62d836b788205c7aa5a777046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 14/38] fix: error code of failed io_uring operations

---
 src/dex-uring-future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..ffb4eb0 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -79,8 +79,8 @@ static GError *
 create_error (int error_code)
 {
   return g_error_new_literal (G_IO_ERROR,
-                              g_io_error_from_errno (-error_code),
-                              g_strerror (-error_code));
+                              g_io_error_from_errno (error_code),
+                              g_strerror (error_code));
 }
 
 static void
-- 
2.43.0


From 36aff8412a29191b43ac4079bc8cf85617012d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 15/38] fix: leak of io_uring operations which had to be queued

---
 src/dex-uring-aio-backend.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..5d44b48 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -171,7 +171,9 @@ dex_uring_aio_context_prepare (GSource *source,
 
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+
+      /* The reference owned by the queue is now owned by the ring */
+      io_uring_sqe_set_data (sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From 3303b54512c36810c1090955869aadbe3f424c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 16/38] fix: io_uring operations of 4 GiB or more transferring
 nothing

---
 src/dex-uring-future.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index ffb4eb0..3bd5ae2 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -27,6 +27,11 @@
 #include "dex-future-private.h"
 #include "dex-uring-future-private.h"
 
+/* The length of an operation is 32-bit and Linux will not transfer more
+ * than this at once anyway. See read(2) and write(2).
+ */
+#define MAX_RW_COUNT 0x7ffff000
+
 typedef enum _DexUringType
 {
   DEX_URING_TYPE_READ = 1,
@@ -144,7 +149,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          MIN (uring_future->read.count, MAX_RW_COUNT),
                           uring_future->read.offset);
       break;
 
@@ -152,7 +157,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           MIN (uring_future->write.count, MAX_RW_COUNT),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0


From 7c1288d02d078cfaaee82046aaedc9e3b757f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 17/38] fix: release the AIO backend with its POSIX contexts

---
 src/dex-posix-aio-backend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..a86b3b1 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -147,6 +147,7 @@ dex_posix_aio_context_finalize (GSource *source)
   g_assert (DEX_IS_POSIX_AIO_BACKEND (aio_context->parent.aio_backend));
   g_assert (aio_context->completed.length == 0);
 
+  dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 }
 
-- 
2.43.0


From aaa17e2d4c2c47018cb2ddcbdc2d5190199b0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 18/38] fix: leak of DexUnixSignal once the signal is delivered

---
 src/dex-unix-signal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..d5834c2 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,7 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From 3187e38712f6eaa36cf9b1bc2617920ecdc4b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 19/38] fix: discarding a timeout racing with its expiry

---
 src/dex-timeout.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..36477f7 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,19 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source = NULL;
 
+  /* The source may be dispatched by another thread meanwhile */
+  dex_object_lock (timeout);
   if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+    source = g_source_ref (timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0


From d93f5b805dff04c5fe4909fad2418aea4f8b5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 20/38] fix: deadlock releasing a DexCancellable while it is
 being cancelled

---
 src/dex-cancellable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..1f714cb 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,12 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* Do not use g_cancellable_disconnect() here as we may be released from
+   * within the emission of "cancelled", which it would wait for. That is
+   * not needed as the handler only has a weak reference to us.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -94,7 +98,6 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
 
   if ((self = dex_weak_ref_get (wr)))
     {
-      self->handler = 0;
       dex_future_complete (DEX_FUTURE (self),
                            NULL,
                            g_error_new_literal (G_IO_ERROR,
-- 
2.43.0


From 112302e023db7a2e2ea77804be1bffe2b43a6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 21/38] fix: abort when an async pair without an instance
 completes

---
 src/dex-async-pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..1abb166 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -80,7 +80,7 @@ dex_async_pair_ready_callback (GObject      *object,
   GError *error = NULL;
   GType gtype;
 
-  g_assert (G_IS_OBJECT (object));
+  g_assert (!object || G_IS_OBJECT (object));
   g_assert (G_IS_ASYNC_RESULT (result));
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
 
-- 
2.43.0


From dce7dd3f033d355f496e27cd8d34c8cc6d287122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 22/38] fix: discarding a fiber clobbering the other flags of
 the fiber

---
 src/dex-fiber-private.h | 4 +++-
 src/dex-fiber.c         | 6 ++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..7adfa3e 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,9 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* Set from any thread when the fiber is discarded (atomic) */
+  int cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..43f4855 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -72,9 +72,7 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -437,7 +435,7 @@ dex_fiber_await (DexFiber  *fiber,
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
+  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
-- 
2.43.0


From c91f9b3f4f21101b4226edb8be1980e1dbda66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 23/38] fix: awaiting from a discarded fiber reporting a
 pending future

---
 src/dex-fiber.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 43f4855..217961e 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -164,8 +164,10 @@ dex_fiber_start (DexFiber *fiber)
   /* Await any future returned from the fiber */
   if (future != NULL)
     {
-      dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+      GError *error = NULL;
+      const GValue *value = dex_await_borrowed (future, &error);
+
+      dex_future_complete (DEX_FUTURE (fiber), value, error);
       dex_unref (future);
     }
   else
@@ -423,7 +425,7 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+static inline gboolean
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
@@ -448,6 +450,8 @@ dex_fiber_await (DexFiber  *fiber,
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  return !cancelled;
 }
 
 const GValue *
@@ -470,7 +474,8 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
+  if (!dex_fiber_await (fiber, future))
+    future = cancelled_future;
 
   return dex_future_get_value (future, error);
 }
-- 
2.43.0


From 9cc7ca1e6cb0ac6c6040df17c5a37f84761af486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 24/38] fix: fiber queue length read without its lock

---
 src/dex-fiber.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 217961e..4023c5e 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -333,7 +333,9 @@ dex_fiber_scheduler_dispatch (GSource     *source,
    * the queue so that we don't exhaust the main loop endlessly
    * processing completed fibers w/o yielding to other GSource.
    */
+  g_mutex_lock (&fiber_scheduler->mutex);
   max_iterations = MAX (1, fiber_scheduler->runnable.length);
+  g_mutex_unlock (&fiber_scheduler->mutex);
 
   dex_thread_storage_get ()->fiber_scheduler = fiber_scheduler;
   while (max_iterations && dex_fiber_scheduler_iteration (fiber_scheduler))
-- 
2.43.0


From 4f92a0bc273d847450a44844b17609d65220162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 25/38] fix: callbacks stolen by other thread pool workers

A callback which a thread pool worker deferred because of the recursion
limit was pushed to its own work queue, from which any other worker may
steal it, so that it ran on a thread other than that of the scheduler it
was attached on.
---
 src/dex-block.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index eb3c26c..51ff810 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -149,6 +149,14 @@ dex_block_propagate_within_scheduler (gpointer data)
   g_free (state);
 }
 
+static gboolean
+dex_block_propagate_within_scheduler_idle (gpointer data)
+{
+  dex_block_propagate_within_scheduler (data);
+
+  return G_SOURCE_REMOVE;
+}
+
 static gboolean
 dex_block_propagate (DexFuture *future,
                      DexFuture *completed)
@@ -203,9 +211,30 @@ dex_block_propagate (DexFuture *future,
       /* Otherwise we must defer it to the scheduler */
       dex_ref (block);
       dex_ref (completed);
-      dex_scheduler_push (block->scheduler,
-                          dex_block_propagate_within_scheduler,
-                          g_memdup2 (&state, sizeof state));
+
+      if (storage->worker != NULL &&
+          block->scheduler == dex_scheduler_get_thread_default ())
+        {
+          GSource *source;
+
+          /* What a thread pool worker pushes to itself may be stolen by
+           * another worker, but the callback must be run on this one.
+           */
+          source = g_idle_source_new ();
+          g_source_set_priority (source, G_PRIORITY_DEFAULT);
+          g_source_set_callback (source,
+                                 dex_block_propagate_within_scheduler_idle,
+                                 g_memdup2 (&state, sizeof state),
+                                 NULL);
+          g_source_attach (source, dex_scheduler_get_main_context (block->scheduler));
+          g_source_unref (source);
+        }
+      else
+        {
+          dex_scheduler_push (block->scheduler,
+                              dex_block_propagate_within_scheduler,
+                              g_memdup2 (&state, sizeof state));
+        }
 
       return TRUE;
     }
-- 
2.43.0


From 854b54c2f93fc86005a361dd518cad878f225b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 26/38] fix: future set keeping interest in futures chained
 after it completed

dex_future_first() and similar which complete because of one of the first
futures given chained to the remaining ones after they were discarded, so
that those were not cancelled until the set was released.
---
 src/dex-future-set.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 0173502..be02770 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -218,6 +218,22 @@ dex_future_set_init (DexFutureSet *future_set)
 {
 }
 
+static void
+dex_future_set_chain (DexFutureSet *future_set)
+{
+  for (guint i = 0; i < future_set->n_futures; i++)
+    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+
+  /* If we completed before all of the futures were chained then the ones
+   * chained since have not been discarded.
+   */
+  if (dex_future_get_status (DEX_FUTURE (future_set)) != DEX_FUTURE_STATUS_PENDING)
+    {
+      for (guint i = 0; i < future_set->n_futures; i++)
+        dex_future_discard (future_set->futures[i], DEX_FUTURE (future_set));
+    }
+}
+
 /**
  * dex_future_set_new: (skip)
  * @futures: (transfer none) (array length=n_futures): an array of futures to chain
@@ -261,8 +277,7 @@ dex_future_set_new (DexFuture * const *futures,
   /* Now start chaining futures, even if we progress from pending while
    * we iterate this list (as we're safe against multiple resolves).
    */
-  for (guint i = 0; i < n_futures; i++)
-    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+  dex_future_set_chain (future_set);
 
   return future_set;
 }
@@ -308,8 +323,7 @@ dex_future_set_new_va (DexFuture         *first_future,
   /* Now start chaining futures, even if we progress from pending while
    * we iterate this list (as we're safe against multiple resolves).
    */
-  for (guint i = 0; i < future_set->n_futures; i++)
-    dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
+  dex_future_set_chain (future_set);
 
   return future_set;
 }
-- 
2.43.0


From 5c7f01f4ac8494d929b05b5a925eaff39986ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 27/38] fix: data race on the source name when timeouts are
 created on several threads

dex_timeout_new_deadline() cached an interned name in an unsynchronized
static variable. Use the string literal, as every other source does.
---
 src/dex-timeout.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index 36477f7..db92cd8 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -141,14 +141,10 @@ dex_timeout_source_func (gpointer data)
 DexFuture *
 dex_timeout_new_deadline (gint64 deadline)
 {
-  static const char *name;
   DexScheduler *scheduler;
   DexTimeout *timeout;
   DexWeakRef *wr;
 
-  if G_UNLIKELY (name == NULL)
-    name = g_intern_static_string ("[dex-timeout]");
-
   timeout = (DexTimeout *)dex_object_create_instance (DEX_TYPE_TIMEOUT);
 
   wr = g_new0 (DexWeakRef, 1);
@@ -156,7 +152,7 @@ dex_timeout_new_deadline (gint64 deadline)
 
   timeout->source = g_timeout_source_new (0);
   g_source_set_ready_time (timeout->source, deadline);
-  _g_source_set_static_name (timeout->source, name);
+  _g_source_set_static_name (timeout->source, "[dex-timeout]");
   g_source_set_priority (timeout->source, G_PRIORITY_DEFAULT);
   g_source_set_callback (timeout->source,
                          dex_timeout_source_func,
-- 
2.43.0


From e86b1052ca81d6d2f9c75856968dfdca0062b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 28/38] fix: leak of in-flight io_uring operations when their
 AIO context is released

---
 src/dex-uring-aio-backend.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 5d44b48..09798a1 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -53,6 +53,7 @@ typedef struct _DexUringAioContext
   gpointer         eventfdtag;
   GMutex           mutex;
   GQueue           queued;
+  GHashTable      *in_flight;
   guint            ring_initialized : 1;
 } DexUringAioContext;
 
@@ -126,6 +127,7 @@ again:
   for (guint i = 0; i < n_handled; i++)
     {
       DexUringFuture *future = handledstack[i];
+      g_hash_table_remove (aio_context->in_flight, future);
       dex_uring_future_complete (future);
       dex_unref (future);
     }
@@ -174,6 +176,7 @@ dex_uring_aio_context_prepare (GSource *source,
 
       /* The reference owned by the queue is now owned by the ring */
       io_uring_sqe_set_data (sqe, future);
+      g_hash_table_add (aio_context->in_flight, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
@@ -199,6 +202,8 @@ static void
 dex_uring_aio_context_finalize (GSource *source)
 {
   DexUringAioContext *aio_context = (DexUringAioContext *)source;
+  GHashTableIter iter;
+  gpointer future;
 
   g_assert (aio_context != NULL);
   g_assert (DEX_IS_URING_AIO_BACKEND (aio_context->parent.aio_backend));
@@ -209,6 +214,12 @@ dex_uring_aio_context_finalize (GSource *source)
   if (aio_context->ring_initialized)
     io_uring_queue_exit (&aio_context->ring);
 
+  /* The ring is gone and with it the completions of what is in flight */
+  g_hash_table_iter_init (&iter, aio_context->in_flight);
+  while (g_hash_table_iter_next (&iter, &future, NULL))
+    dex_unref (future);
+  g_clear_pointer (&aio_context->in_flight, g_hash_table_unref);
+
   dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 
@@ -246,6 +257,7 @@ dex_uring_aio_context_queue (DexUringAioContext *aio_context,
     {
       dex_uring_future_sqe (future, sqe);
       io_uring_sqe_set_data (sqe, dex_ref (future));
+      g_hash_table_add (aio_context->in_flight, future);
     }
   else
     {
@@ -273,6 +285,7 @@ dex_uring_aio_backend_create_context (DexAioBackend *aio_backend)
   g_source_set_can_recurse ((GSource *)aio_context, TRUE);
   aio_context->parent.aio_backend = dex_ref (aio_backend);
   g_mutex_init (&aio_context->mutex);
+  aio_context->in_flight = g_hash_table_new (NULL, NULL);
 
 #if DEX_URING_CHECK_VERSION(2, 2)
   if (dex_uring_check_kernel_version (5, 19))
-- 
2.43.0


From 51ce1cd7c41135a1589416f85911f20ad1403148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 29/38] fix: overflow of the deadline of far timeouts

dex_timeout_new_usec() with a large enough value wrapped around to a
deadline in the past, so that the timeout was rejected at once.
---
 src/dex-timeout.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index db92cd8..b12e53e 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -196,7 +196,13 @@ dex_timeout_new_msec (int msec)
 DexFuture *
 dex_timeout_new_usec (gint64 usec)
 {
-  return dex_timeout_new_deadline (g_get_monotonic_time () + usec);
+  gint64 now = g_get_monotonic_time ();
+
+  /* Do not wrap around to a deadline in the past */
+  if (usec > G_MAXINT64 - now)
+    return dex_timeout_new_deadline (G_MAXINT64);
+
+  return dex_timeout_new_deadline (now + usec);
 }
 
 void
-- 
2.43.0


From c584f109d38c61f60fce5bc1e7c1b6556db4a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 30/38] fix: dex_unix_signal_get_signum() declared but not
 defined

---
 src/dex-unix-signal.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index d5834c2..69a1a5b 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -161,3 +161,19 @@ dex_unix_signal_new (int signum)
 
   return DEX_FUTURE (unix_signal);
 }
+
+/**
+ * dex_unix_signal_get_signum:
+ * @unix_signal: a #DexUnixSignal
+ *
+ * Gets the number of the signal @unix_signal waits for.
+ *
+ * Returns: a signal number such as %SIGHUP
+ */
+int
+dex_unix_signal_get_signum (DexUnixSignal *unix_signal)
+{
+  g_return_val_if_fail (DEX_IS_UNIX_SIGNAL (unix_signal), 0);
+
+  return unix_signal->signum;
+}
-- 
2.43.0


From 5692c1ffabc5de86b743626bcce26947e380d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 31/38] fix: make the outcome of DexAsyncResult available
 before its callback

The future was stored after the callback had been set up, and it completed
after the callback had been scheduled. Both may happen on another thread than
the one running the callback, which then failed with DEX_ERROR_PENDING.
---
 src/dex-async-result.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..38451e5 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -392,7 +392,6 @@ void
 dex_async_result_await (DexAsyncResult *async_result,
                         DexFuture      *future)
 {
-  DexFuture *new_future = NULL;
   DexFuture *cancellable;
 
   g_return_if_fail (DEX_IS_ASYNC_RESULT (async_result));
@@ -416,19 +415,20 @@ dex_async_result_await (DexAsyncResult *async_result,
   else
     cancellable = dex_cancellable_new_from_cancellable (async_result->cancellable);
 
-  /* We have to be careful about ownership here and ensure we
-   * drop our references when the callback is executed.
+  future = dex_future_first (future, cancellable, NULL);
+
+  /* The result must be available before the callback can be scheduled as
+   * that may happen on another thread right away.
    */
-  g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (future);
   g_mutex_unlock (&async_result->mutex);
-  g_object_unref (async_result);
+
+  dex_future_disown (dex_future_finally (future,
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
 }
 
 void
-- 
2.43.0


From 004ca611bdac30a8086a9b47bbb33061983db1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 32/38] fix: keep user data and outcome of DexAsyncResult for
 its callers

g_async_result_get_user_data() returned NULL from within the callback, and the
finish function failed with DEX_ERROR_PENDING when called after it (such as by
a caller storing the GAsyncResult to finish the operation later).
---
 src/dex-async-result.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index 38451e5..80fde6d 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -332,9 +332,7 @@ dex_async_result_complete_in_idle_cb (gpointer user_data)
 
   async_result->callback (async_result->source_object,
                           G_ASYNC_RESULT (async_result),
-                          g_steal_pointer (&async_result->user_data));
-
-  dex_clear (&async_result->future);
+                          async_result->user_data);
 
   return G_SOURCE_REMOVE;
 }
-- 
2.43.0


From a484d149f40d71f56c5a9edbae1510f892b930c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 33/38] fix: cancel
 dex_dbus_connection_call_with_unix_fd_list() when released

The pending call held a reference to the set returned to the caller, so that
nobody ever lost interest in the call and it could not be cancelled.
---
 src/dex-gio.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 87f6d30..98416fc 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -1117,24 +1117,25 @@ dex_dbus_connection_call (GDBusConnection    *connection,
 }
 
 #ifdef G_OS_UNIX
+typedef struct
+{
+  DexAsyncPair *async_pair;
+  DexPromise   *promise;
+} CallWithUnixFdList;
+
 static void
 dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
                                                GAsyncResult *result,
                                                gpointer      user_data)
 {
-  DexFutureSet *future_set = user_data;
-  DexAsyncPair *async_pair;
-  DexPromise *promise;
+  CallWithUnixFdList *state = user_data;
+  DexAsyncPair *async_pair = state->async_pair;
+  DexPromise *promise = state->promise;
   GUnixFDList *fd_list = NULL;
   GVariant *reply = NULL;
   GError *error = NULL;
 
   g_assert (G_IS_DBUS_CONNECTION (object));
-  g_assert (DEX_IS_FUTURE_SET (future_set));
-
-  async_pair = DEX_ASYNC_PAIR (dex_future_set_get_future_at (future_set, 0));
-  promise = DEX_PROMISE (dex_future_set_get_future_at (future_set, 1));
-
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
   g_assert (DEX_IS_PROMISE (promise));
 
@@ -1154,7 +1155,9 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
       dex_async_pair_return_error (async_pair, error);
     }
 
-  dex_unref (future_set);
+  dex_unref (async_pair);
+  dex_unref (promise);
+  g_free (state);
 }
 
 /**
@@ -1189,6 +1192,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             int                 timeout_msec,
                                             GUnixFDList        *fd_list)
 {
+  CallWithUnixFdList *state;
   DexAsyncPair *async_pair;
   DexPromise *promise;
   DexFuture *ret;
@@ -1202,6 +1206,13 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   /* Will hold our GUnixFDList result */
   promise = dex_promise_new ();
 
+  /* Must not keep the set alive, otherwise the call would never be
+   * cancelled when the set is released.
+   */
+  state = g_new0 (CallWithUnixFdList, 1);
+  state->async_pair = dex_ref (async_pair);
+  state->promise = dex_ref (promise);
+
   /* Sent to user. Resolving will contain variant. */
   ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
 
@@ -1217,7 +1228,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             fd_list,
                                             async_pair->cancellable,
                                             dex_dbus_connection_call_with_unix_fd_list_cb,
-                                            dex_ref (ret));
+                                            state);
 
   return ret;
 }
-- 
2.43.0


From bac0f11790937a3085557b919c20330b5fbc342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 34/38] fix: sources of low priority starved in the contexts of
 thread pool workers

The source which steals work from other workers claimed to be ready after
every poll, so that no source of a lower priority was ever dispatched and the
worker did not sleep anymore once there was one. That is the case for GIO
operations started on a worker with a priority such as
G_PRIORITY_DEFAULT_IDLE, which did not complete.
---
 src/dex-thread-pool-worker.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index fff7551..ccdb7ec 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -354,7 +354,7 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
-  /* Stop stealing from others, the source for that is always ready */
+  /* Stop stealing from others */
   g_source_destroy (thread_pool_worker->set_source);
 
   /* Flush out any pending operations */
@@ -486,6 +486,27 @@ unlock:
   g_rw_lock_reader_unlock (&set->rwlock);
 }
 
+static inline gboolean
+dex_thread_pool_worker_set_has_work (DexThreadPoolWorkerSet *set,
+                                     DexThreadPoolWorker    *thread_pool_worker)
+{
+  gboolean ret = FALSE;
+
+  g_rw_lock_reader_lock (&set->rwlock);
+
+  for (const GList *iter = set->queue.head; iter && !ret; iter = iter->next)
+    {
+      DexThreadPoolWorker *neighbor = iter->data;
+
+      if (neighbor != thread_pool_worker)
+        ret = !dex_work_stealing_queue_empty (neighbor->work_stealing_queue);
+    }
+
+  g_rw_lock_reader_unlock (&set->rwlock);
+
+  return ret;
+}
+
 typedef struct _DexThreadPoolWorkerSetSource
 {
   GSource                 parent_source;
@@ -496,8 +517,12 @@ typedef struct _DexThreadPoolWorkerSetSource
 static gboolean
 dex_thread_pool_worker_set_source_check (GSource *source)
 {
-  /* We always check the peers for work */
-  return TRUE;
+  DexThreadPoolWorkerSetSource *real_source = (DexThreadPoolWorkerSetSource *)source;
+
+  /* We always check the peers for work, but must not be ready without any as
+   * sources of a lower priority would never be dispatched.
+   */
+  return dex_thread_pool_worker_set_has_work (real_source->set, real_source->thread_pool_worker);
 }
 
 static gboolean
-- 
2.43.0


From f0220a780bec491467c1b5a38e47aa1b18a07ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 35/38] fix: initialize the error quark once when threads ask
 for it at the same time

---
 src/dex-error.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dex-error.c b/src/dex-error.c
index bee9f88..3686c9f 100644
--- a/src/dex-error.c
+++ b/src/dex-error.c
@@ -26,10 +26,10 @@
 GQuark
 dex_error_quark (void)
 {
-  static GQuark error_quark;
+  static gsize error_quark;
 
-  if G_UNLIKELY (error_quark == 0)
-    error_quark = g_quark_from_static_string ("dex-error");
+  if (g_once_init_enter (&error_quark))
+    g_once_init_leave (&error_quark, g_quark_from_static_string ("dex-error"));
 
   return error_quark;
 }
-- 
2.43.0


From 990bb080c07dab936f6311671de8c2db47197634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 36/38] fix: I/O stopped for good on a thread that released a
 thread pool

io_uring_queue_exit() unregisters the descriptor of the ring by an index into
a table of the calling thread. Released by another thread than its own, the
AIO context of a worker took away the ring of that other thread.
---
 src/dex-thread-pool-worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index ccdb7ec..95cef43 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -376,6 +376,11 @@ dex_thread_pool_worker_thread_func (gpointer data)
   storage->scheduler = NULL;
   storage->aio_context = NULL;
 
+  /* Drop the AIO context on the thread it was created for, as io_uring has
+   * state of that thread which others would mistake for their own.
+   */
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
+
   return NULL;
 }
 
-- 
2.43.0


From 02c94173bfcaf3940c78edf35509b7ea99763d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 37/38] fix: threads of a thread pool left running when
 released by one of them

The last reference to a thread pool may well be given up by one of its own
threads, such as by releasing a block. That thread kept running, with its
worker and the work queue.
---
 src/dex-thread-pool-worker.c | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 95cef43..9a78a46 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -60,6 +60,9 @@ struct _DexThreadPoolWorker
   GCond                      setup_cond;
 
   DexThreadPoolWorkerStatus  status : 2;
+
+  /* If the thread exits on its own, giving up its reference */
+  guint                      detached : 1;
 };
 
 typedef struct _DexThreadPoolWorkerClass
@@ -144,6 +147,16 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
   return G_SOURCE_REMOVE;
 }
 
+static gboolean
+dex_thread_pool_worker_detach_cb (gpointer data)
+{
+  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (data);
+
+  thread_pool_worker->detached = TRUE;
+
+  return dex_thread_pool_worker_finalize_cb (thread_pool_worker);
+}
+
 /*
  * dex_thread_pool_worker_shutdown:
  * @thread_pool_worker: a #DexThreadPoolWorker
@@ -152,19 +165,25 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
  * to have done so. The thread keeps processing work from the global work
  * queue until then, which holds a reference to @thread_pool_worker, so it
  * would never be finalized without this.
+ *
+ * Threads of the same thread pool do not wait, as a thread cannot wait for
+ * itself and its peers may have to wait for it. The worker is given up by
+ * its own thread on exit then.
  */
 void
 dex_thread_pool_worker_shutdown (DexThreadPoolWorker *thread_pool_worker)
 {
+  DexThreadPoolWorker *current = DEX_THREAD_POOL_WORKER_CURRENT;
   GSource *idle_source;
+  gboolean detach;
 
   g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
 
-  /* A thread cannot wait for itself to exit */
-  if (thread_pool_worker->thread == NULL ||
-      thread_pool_worker->thread == g_thread_self ())
+  if (thread_pool_worker->thread == NULL)
     return;
 
+  detach = current != NULL && current->set == thread_pool_worker->set;
+
   /* To finalize the worker, we need to push a work item to the thread
    * that will cause it to stop processing and then wait for the thread
    * to exit after processing the rest of the queue. We change the finalizing
@@ -174,12 +193,20 @@ dex_thread_pool_worker_shutdown (DexThreadPoolWorker *thread_pool_worker)
   idle_source = g_idle_source_new ();
   _g_source_set_static_name (idle_source, "[dex-thread-pool-worker-finalize]");
   g_source_set_priority (idle_source, G_MININT);
-  g_source_set_callback (idle_source,
-                         dex_thread_pool_worker_finalize_cb,
-                         thread_pool_worker, NULL);
+  if (detach)
+    g_source_set_callback (idle_source,
+                           dex_thread_pool_worker_detach_cb,
+                           dex_ref (thread_pool_worker), NULL);
+  else
+    g_source_set_callback (idle_source,
+                           dex_thread_pool_worker_finalize_cb,
+                           thread_pool_worker, NULL);
   g_source_attach (idle_source, thread_pool_worker->main_context);
   g_source_unref (idle_source);
 
+  if (detach)
+    return;
+
   /* Now wait for the thread to process items and exit the thread */
   g_thread_join (g_steal_pointer (&thread_pool_worker->thread));
 }
@@ -381,6 +408,12 @@ dex_thread_pool_worker_thread_func (gpointer data)
    */
   g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
 
+  if (thread_pool_worker->detached)
+    {
+      g_thread_unref (g_steal_pointer (&thread_pool_worker->thread));
+      dex_unref (thread_pool_worker);
+    }
+
   return NULL;
 }
 
-- 
2.43.0


From 44ae387fbe5cedcbb7eb8767b4036f52b8928a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 38/38] fix: work for a thread pool run by the threads of
 another one

Pushing work to a thread pool from a thread of another thread pool made
the latter run it. Besides running on the wrong threads, it could wait
for the very thread which waits for it.
---
 src/dex-thread-pool-scheduler.c      | 4 +++-
 src/dex-thread-pool-worker-private.h | 2 ++
 src/dex-thread-pool-worker.c         | 9 +++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 3e307e2..9e71800 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -73,7 +73,9 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolScheduler *thread_pool_scheduler = DEX_THREAD_POOL_SCHEDULER (scheduler);
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
-  if (worker != NULL)
+  /* The current thread may also belong to another thread pool */
+  if (worker != NULL &&
+      dex_thread_pool_worker_is_in_set (worker, thread_pool_scheduler->set))
     DEX_SCHEDULER_GET_CLASS (worker)->push (DEX_SCHEDULER (worker), work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index a2d7be2..4b8d337 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -38,6 +38,8 @@ GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_shutdown  (DexThreadPoolWorker    *thread_pool_worker);
+gboolean                dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                                          DexThreadPoolWorkerSet *set);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 9a78a46..0dbfbce 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -211,6 +211,15 @@ dex_thread_pool_worker_shutdown (DexThreadPoolWorker *thread_pool_worker)
   g_thread_join (g_steal_pointer (&thread_pool_worker->thread));
 }
 
+gboolean
+dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                  DexThreadPoolWorkerSet *set)
+{
+  g_return_val_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker), FALSE);
+
+  return thread_pool_worker->set == set;
+}
+
 static void
 dex_thread_pool_worker_finalize (DexObject *object)
 {
-- 
2.43.0

