/* ThreadSanitizer glue: GLib is not instrumented, so the synchronisation it
 * provides to libdex is made visible here.  Each wrapper performs the real call
 * and tells TSan about the ordering it establishes.
 */
#define _GNU_SOURCE
void v_noise_point (void);
#include <gio/gio.h>
#include <ucontext.h>
#include <pthread.h>
#include <string.h>

void __tsan_acquire (void *addr);
void __tsan_release (void *addr);
void *__tsan_get_current_fiber (void);
void *__tsan_create_fiber (unsigned flags);
void __tsan_destroy_fiber (void *fiber);
void __tsan_switch_to_fiber (void *fiber, unsigned flags);

#define NOSAN __attribute__((no_sanitize("thread")))
static char glib_sync;   /* coarse: everything handed to a GMainContext */

/* ---- mutexes */
void __real_g_mutex_lock (GMutex *m); void __real_g_mutex_unlock (GMutex *m);
gboolean __real_g_mutex_trylock (GMutex *m); void __real_g_mutex_clear (GMutex *m);
void __wrap_g_mutex_lock (GMutex *m) { __real_g_mutex_lock (m); __tsan_acquire (m); }
void __wrap_g_mutex_unlock (GMutex *m) { __tsan_release (m); __real_g_mutex_unlock (m); }
gboolean __wrap_g_mutex_trylock (GMutex *m) { gboolean r = __real_g_mutex_trylock (m); if (r) __tsan_acquire (m); return r; }
void __wrap_g_mutex_clear (GMutex *m) { __real_g_mutex_clear (m); }
void __real_g_cond_wait (GCond *c, GMutex *m);
void __wrap_g_cond_wait (GCond *c, GMutex *m) { __tsan_release (m); __real_g_cond_wait (c, m); __tsan_acquire (m); }
gboolean __real_g_cond_wait_until (GCond *c, GMutex *m, gint64 t);
gboolean __wrap_g_cond_wait_until (GCond *c, GMutex *m, gint64 t) { gboolean r; __tsan_release (m); r = __real_g_cond_wait_until (c, m, t); __tsan_acquire (m); return r; }
#define RW(name, pre, post) void __real_##name (GRWLock *l); void __wrap_##name (GRWLock *l) { pre; __real_##name (l); post; }
RW (g_rw_lock_reader_lock, , __tsan_acquire (l))
RW (g_rw_lock_reader_unlock, __tsan_release ((char *)l + 1), )
RW (g_rw_lock_writer_unlock, __tsan_release (l), )
void __real_g_rw_lock_writer_lock (GRWLock *l);
void __wrap_g_rw_lock_writer_lock (GRWLock *l) { __real_g_rw_lock_writer_lock (l); __tsan_acquire (l); __tsan_acquire ((char *)l + 1); }
void __real_g_rec_mutex_lock (GRecMutex *m); void __real_g_rec_mutex_unlock (GRecMutex *m);
void __wrap_g_rec_mutex_lock (GRecMutex *m) { __real_g_rec_mutex_lock (m); __tsan_acquire (m); }
void __wrap_g_rec_mutex_unlock (GRecMutex *m) { __tsan_release (m); __real_g_rec_mutex_unlock (m); }

/* what GLib does inside is guarded by its own locks, which TSan does not see */
void AnnotateIgnoreReadsBegin (const char *, int); void AnnotateIgnoreReadsEnd (const char *, int);
void AnnotateIgnoreWritesBegin (const char *, int); void AnnotateIgnoreWritesEnd (const char *, int);
static __thread int ign;
static void in_glib (int d) { if (d > 0) { AnnotateIgnoreReadsBegin (__FILE__, __LINE__); AnnotateIgnoreWritesBegin (__FILE__, __LINE__); } else { AnnotateIgnoreWritesEnd (__FILE__, __LINE__); AnnotateIgnoreReadsEnd (__FILE__, __LINE__); } ign += d; }
static int out_glib (void) { int n = ign; while (ign > 0) in_glib (-1); return n; }   /* back in callbacks of the program */
static void back_glib (int n) { while (ign < n) in_glib (1); }

/* ---- sources: anything published to a main context is visible to its callbacks */
typedef struct { GSourceFuncs shim; GSourceFuncs *orig; } Shim;
static Shim shims[256]; static int n_shims; static GMutex shim_lock;
static NOSAN Shim *shim_of (GSource *s) { return (Shim *)(void *)s->source_funcs; }
static NOSAN gboolean s_prepare (GSource *s, gint *t) { __tsan_acquire (&glib_sync); return shim_of (s)->orig->prepare (s, t); }
static NOSAN gboolean s_check (GSource *s) { __tsan_acquire (&glib_sync); return shim_of (s)->orig->check (s); }
static NOSAN gboolean s_dispatch (GSource *s, GSourceFunc f, gpointer d) { __tsan_acquire (&glib_sync); return shim_of (s)->orig->dispatch (s, f, d); }
static NOSAN void s_finalize (GSource *s) { int g = out_glib (); __tsan_acquire (&glib_sync); shim_of (s)->orig->finalize (s); back_glib (g); }
GSource *__real_g_source_new (GSourceFuncs *f, guint sz);
NOSAN GSource *__wrap_g_source_new (GSourceFuncs *f, guint sz)
{
  Shim *sh = NULL;
  __real_g_mutex_lock (&shim_lock);
  for (int i = 0; i < n_shims; i++) if (shims[i].orig == f) sh = &shims[i];
  if (!sh && n_shims < 256)
    {
      sh = &shims[n_shims++];
      sh->orig = f;
      if (f->prepare) sh->shim.prepare = s_prepare;
      if (f->check) sh->shim.check = s_check;
      if (f->dispatch) sh->shim.dispatch = s_dispatch;
      if (f->finalize) sh->shim.finalize = s_finalize;
    }
  __real_g_mutex_unlock (&shim_lock);
  return __real_g_source_new (sh ? &sh->shim : f, sz);
}
typedef struct { GSourceFunc f; gpointer d; GDestroyNotify n; } Cb;
static gboolean cb_func (gpointer p) { Cb *c = p; __tsan_acquire (&glib_sync); return c->f (c->d); }
static void cb_free (gpointer p) { Cb *c = p; int g = out_glib (); __tsan_acquire (&glib_sync); if (c->n) c->n (c->d); g_free (c); back_glib (g); }
static Cb *cb_new (GSourceFunc f, gpointer d, GDestroyNotify n) { Cb *c = g_new (Cb, 1); c->f = f; c->d = d; c->n = n; return c; }
void __real_g_source_set_callback (GSource *s, GSourceFunc f, gpointer d, GDestroyNotify n);
void __wrap_g_source_set_callback (GSource *s, GSourceFunc f, gpointer d, GDestroyNotify n)
{
  if (f) { Cb *c = cb_new (f, d, n); __tsan_release (&glib_sync); __real_g_source_set_callback (s, cb_func, c, cb_free); }
  else __real_g_source_set_callback (s, f, d, n);
}
guint __real_g_source_attach (GSource *s, GMainContext *c);
guint __wrap_g_source_attach (GSource *s, GMainContext *c) { guint r; __tsan_release (&glib_sync); in_glib (1); r = __real_g_source_attach (s, c); in_glib (-1); return r; }
void __real_g_source_set_ready_time (GSource *s, gint64 t);
void __wrap_g_source_set_ready_time (GSource *s, gint64 t) { __tsan_release (&glib_sync); in_glib (1); __real_g_source_set_ready_time (s, t); in_glib (-1); }
void __real_g_source_destroy (GSource *s);
void __wrap_g_source_destroy (GSource *s) { __tsan_release (&glib_sync); in_glib (1); __real_g_source_destroy (s); in_glib (-1); }
void __real_g_source_unref (GSource *s);
void __wrap_g_source_unref (GSource *s) { __tsan_release (&glib_sync); in_glib (1); __real_g_source_unref (s); in_glib (-1); }
void __real_g_main_context_wakeup (GMainContext *c);
void __wrap_g_main_context_wakeup (GMainContext *c) { __tsan_release (&glib_sync); in_glib (1); __real_g_main_context_wakeup (c); in_glib (-1); }
gboolean __real_g_main_context_iteration (GMainContext *c, gboolean b);
gboolean __wrap_g_main_context_iteration (GMainContext *c, gboolean b) { gboolean r; __tsan_release (&glib_sync); r = __real_g_main_context_iteration (c, b); __tsan_acquire (&glib_sync); return r; }
void __real_g_main_context_invoke_full (GMainContext *c, gint p, GSourceFunc f, gpointer d, GDestroyNotify n);
void __wrap_g_main_context_invoke_full (GMainContext *c, gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { Cb *cb = cb_new (f, d, n); __tsan_release (&glib_sync); in_glib (1); __real_g_main_context_invoke_full (c, p, cb_func, cb, cb_free); in_glib (-1); }
void __real_g_main_context_invoke (GMainContext *c, GSourceFunc f, gpointer d);
void __wrap_g_main_context_invoke (GMainContext *c, GSourceFunc f, gpointer d) { __wrap_g_main_context_invoke_full (c, 0, f, d, NULL); }
guint __real_g_idle_add_full (gint p, GSourceFunc f, gpointer d, GDestroyNotify n);
guint __wrap_g_idle_add_full (gint p, GSourceFunc f, gpointer d, GDestroyNotify n) { Cb *cb = cb_new (f, d, n); guint r; __tsan_release (&glib_sync); in_glib (1); r = __real_g_idle_add_full (p, cb_func, cb, cb_free); in_glib (-1); return r; }
guint __wrap_g_idle_add (GSourceFunc f, gpointer d) { return __wrap_g_idle_add_full (G_PRIORITY_DEFAULT_IDLE, f, d, NULL); }
guint __real_g_timeout_add_full (gint p, guint i, GSourceFunc f, gpointer d, GDestroyNotify n);
guint __wrap_g_timeout_add_full (gint p, guint i, GSourceFunc f, gpointer d, GDestroyNotify n) { Cb *cb = cb_new (f, d, n); guint r; __tsan_release (&glib_sync); in_glib (1); r = __real_g_timeout_add_full (p, i, cb_func, cb, cb_free); in_glib (-1); return r; }
gboolean __real_g_source_remove (guint i);
gboolean __wrap_g_source_remove (guint i) { gboolean r; __tsan_release (&glib_sync); in_glib (1); r = __real_g_source_remove (i); in_glib (-1); return r; }

/* ---- async queues */
#define AQ(ret, name, args, call, pre, post) ret __real_##name args; ret __wrap_##name args { pre; ret r = __real_##name call; post; return r; }
void __real_g_async_queue_push (GAsyncQueue *q, gpointer d);
void __wrap_g_async_queue_push (GAsyncQueue *q, gpointer d) { __tsan_release (q); __real_g_async_queue_push (q, d); }
void __real_g_async_queue_push_unlocked (GAsyncQueue *q, gpointer d);
void __wrap_g_async_queue_push_unlocked (GAsyncQueue *q, gpointer d) { __tsan_release (q); __real_g_async_queue_push_unlocked (q, d); }
AQ (gpointer, g_async_queue_pop, (GAsyncQueue *q), (q), , __tsan_acquire (q))
AQ (gpointer, g_async_queue_try_pop, (GAsyncQueue *q), (q), , __tsan_acquire (q))
AQ (gpointer, g_async_queue_pop_unlocked, (GAsyncQueue *q), (q), , __tsan_acquire (q))
AQ (gpointer, g_async_queue_try_pop_unlocked, (GAsyncQueue *q), (q), , __tsan_acquire (q))
void __real_g_async_queue_lock (GAsyncQueue *q);
void __wrap_g_async_queue_lock (GAsyncQueue *q) { __real_g_async_queue_lock (q); __tsan_acquire (q); }
void __real_g_async_queue_unlock (GAsyncQueue *q);
void __wrap_g_async_queue_unlock (GAsyncQueue *q) { __tsan_release (q); __real_g_async_queue_unlock (q); }

/* ---- thread pools: what is pushed is visible to the thread that gets it */
typedef struct { GFunc f; gpointer d; } Tp;
static void tp_func (gpointer item, gpointer p) { Tp *t = p; __tsan_acquire (item); t->f (item, t->d); }
GThreadPool *__real_g_thread_pool_new (GFunc f, gpointer d, gint n, gboolean x, GError **e);
GThreadPool *__wrap_g_thread_pool_new (GFunc f, gpointer d, gint n, gboolean x, GError **e) { Tp *t = g_new (Tp, 1); t->f = f; t->d = d; return __real_g_thread_pool_new (tp_func, t, n, x, e); }
gboolean __real_g_thread_pool_push (GThreadPool *p, gpointer item, GError **e);
gboolean __wrap_g_thread_pool_push (GThreadPool *p, gpointer item, GError **e) { gboolean r; __tsan_release (item); in_glib (1); r = __real_g_thread_pool_push (p, item, e); in_glib (-1); return r; }

/* ---- threads */
typedef struct { GThreadFunc f; gpointer d; } Th;
static gpointer th_func (gpointer p) { Th t = *(Th *)p; gpointer r; __tsan_acquire (p); r = t.f (t.d); __tsan_release (&glib_sync); return r; }
GThread *__real_g_thread_new (const gchar *n, GThreadFunc f, gpointer d);
GThread *__wrap_g_thread_new (const gchar *n, GThreadFunc f, gpointer d) { Th *t = g_new (Th, 1); t->f = f; t->d = d; __tsan_release (t); return __real_g_thread_new (n, th_func, t); }
GThread *__real_g_thread_try_new (const gchar *n, GThreadFunc f, gpointer d, GError **e);
GThread *__wrap_g_thread_try_new (const gchar *n, GThreadFunc f, gpointer d, GError **e) { Th *t = g_new (Th, 1); t->f = f; t->d = d; __tsan_release (t); return __real_g_thread_try_new (n, th_func, t, e); }
gpointer __real_g_thread_join (GThread *t);
gpointer __wrap_g_thread_join (GThread *t) { gpointer r = __real_g_thread_join (t); __tsan_acquire (&glib_sync); return r; }
gboolean __real_g_once_init_enter (void *p);
gboolean __wrap_g_once_init_enter (void *p) { gboolean r = __real_g_once_init_enter (p); __tsan_acquire (p); return r; }
void __real_g_once_init_leave (void *p, gsize v);
void __wrap_g_once_init_leave (void *p, gsize v) { __tsan_release (p); __real_g_once_init_leave (p, v); }

/* ---- GObject / GCancellable / GTask */
gpointer __real_g_object_ref (gpointer o); void __real_g_object_unref (gpointer o);
gpointer __wrap_g_object_ref (gpointer o) { return __real_g_object_ref (o); }
void __wrap_g_object_unref (gpointer o) { __tsan_release (&glib_sync); __tsan_acquire (&glib_sync); __real_g_object_unref (o); }
typedef struct { GCallback f; gpointer d; GDestroyNotify n; } Cc;
static void cc_func (GCancellable *c, gpointer p) { Cc *cc = p; int g = out_glib (); __tsan_acquire (c); __tsan_acquire (cc); ((void (*)(GCancellable *, gpointer))cc->f) (c, cc->d); __tsan_release (c); back_glib (g); }
static void cc_free (gpointer p) { Cc *cc = p; int g = out_glib (); __tsan_acquire (&glib_sync); if (cc->n) cc->n (cc->d); g_free (cc); back_glib (g); }
void __real_g_signal_handler_disconnect (gpointer o, gulong h);
void __wrap_g_signal_handler_disconnect (gpointer o, gulong h) { __tsan_release (o); __tsan_release (&glib_sync); in_glib (1); __real_g_signal_handler_disconnect (o, h); in_glib (-1); }
gulong __real_g_cancellable_connect (GCancellable *c, GCallback f, gpointer d, GDestroyNotify n);
gulong __wrap_g_cancellable_connect (GCancellable *c, GCallback f, gpointer d, GDestroyNotify n)
{ Cc *cc = g_new (Cc, 1); gulong r; cc->f = f; cc->d = d; cc->n = n; __tsan_release (c); __tsan_release (cc); __tsan_release (&glib_sync); in_glib (1); r = __real_g_cancellable_connect (c, (GCallback)cc_func, cc, cc_free); in_glib (-1); __tsan_acquire (c); return r; }
void __real_g_cancellable_cancel (GCancellable *c);
void __wrap_g_cancellable_cancel (GCancellable *c) { if (c) __tsan_release (c); __real_g_cancellable_cancel (c); if (c) __tsan_acquire (c); }
void __real_g_cancellable_disconnect (GCancellable *c, gulong h);
void __wrap_g_cancellable_disconnect (GCancellable *c, gulong h) { if (c) __tsan_release (c); __tsan_release (&glib_sync); in_glib (1); __real_g_cancellable_disconnect (c, h); in_glib (-1); if (c) __tsan_acquire (c); }
#define TR(name, args, call) void __real_##name args; void __wrap_##name args { __tsan_release (&glib_sync); __real_##name call; }
TR (g_task_return_boolean, (GTask *t, gboolean b), (t, b))
TR (g_task_return_error, (GTask *t, GError *e), (t, e))
TR (g_task_return_value, (GTask *t, GValue *v), (t, v))
TR (g_task_return_pointer, (GTask *t, gpointer p, GDestroyNotify n), (t, p, n))
TR (g_task_return_int, (GTask *t, gssize n), (t, n))

/* ---- fibers */
#define NFIB 4096
static struct { const ucontext_t *uc; void *fiber; gboolean own; } fibs[NFIB];
static GMutex fib_lock;
static NOSAN int fib_find (const ucontext_t *uc, gboolean create)
{
  int fr = -1;
  for (int i = 0; i < NFIB; i++)
    {
      if (fibs[i].uc == uc) return i;
      if (fibs[i].uc == NULL && fr < 0) fr = i;
    }
  if (!create) return -1;
  if (fr < 0) abort ();
  fibs[fr].uc = uc; fibs[fr].fiber = NULL; fibs[fr].own = FALSE;
  return fr;
}
/* called by drivers/monitors never; contexts are keyed by address, a remake replaces the fiber */
#include <stdarg.h>
void __real_makecontext (ucontext_t *uc, void (*f) (void), int argc, ...);
NOSAN void __wrap_makecontext (ucontext_t *uc, void (*f) (void), int argc, ...)
{
  va_list ap; int a[4] = { 0 };
  va_start (ap, argc);
  for (int i = 0; i < argc && i < 4; i++) a[i] = va_arg (ap, int);
  va_end (ap);
  __real_makecontext (uc, f, argc, a[0], a[1], a[2], a[3]);
  __real_g_mutex_lock (&fib_lock);
  int i = fib_find (uc, TRUE);
  if (fibs[i].fiber && fibs[i].own) __tsan_destroy_fiber (fibs[i].fiber);
  fibs[i].fiber = __tsan_create_fiber (0);
  fibs[i].own = TRUE;
  __real_g_mutex_unlock (&fib_lock);
}
int __real_swapcontext (ucontext_t *o, const ucontext_t *n);
int __real_setcontext (const ucontext_t *n);
static NOSAN void *fib_switch (ucontext_t *o, const ucontext_t *n)
{
  void *t = NULL; int i;
  __real_g_mutex_lock (&fib_lock);
  if (o)
    {
      i = fib_find (o, TRUE);
      if (!fibs[i].own) fibs[i].fiber = __tsan_get_current_fiber ();
    }
  i = fib_find (n, FALSE);
  if (i >= 0) t = fibs[i].fiber;
  __real_g_mutex_unlock (&fib_lock);
  return t;
}
NOSAN int __wrap_swapcontext (ucontext_t *o, const ucontext_t *n)
{
  void *t = fib_switch (o, n);
  if (t) __tsan_switch_to_fiber (t, 0);
  return __real_swapcontext (o, n);
}
NOSAN int __wrap_setcontext (const ucontext_t *n)
{
  void *t = fib_switch (NULL, n);
  if (t) __tsan_switch_to_fiber (t, 0);
  return __real_setcontext (n);
}

/* ---- fences
 * TSan ignores atomic_thread_fence().  A release fence makes every later
 * relaxed store of the thread a release as far as ordering of what came before
 * the fence goes, which is what is modelled here; loads need nothing for the
 * code under test (acquire loads follow its fences).
 */
typedef int v_mo;
static __thread int fenced;
void __real___tsan_atomic_thread_fence (v_mo mo);
void __real___tsan_atomic64_store (volatile long *a, long v, v_mo mo);
void __real___tsan_atomic32_store (volatile int *a, int v, v_mo mo);
NOSAN void __wrap___tsan_atomic_thread_fence (v_mo mo)
{
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) fenced = 1;
  v_noise_point ();
  __real___tsan_atomic_thread_fence (mo);
}
NOSAN void __wrap___tsan_atomic64_store (volatile long *a, long v, v_mo mo)
{ v_noise_point (); __real___tsan_atomic64_store (a, v, fenced && mo == __ATOMIC_RELAXED ? __ATOMIC_RELEASE : mo); v_noise_point (); }
NOSAN void __wrap___tsan_atomic32_store (volatile int *a, int v, v_mo mo)
{ __real___tsan_atomic32_store (a, v, fenced && mo == __ATOMIC_RELAXED ? __ATOMIC_RELEASE : mo); }

/* GLib allocates its reader/writer locks lazily with atomics TSan does not see;
 * only reports whose innermost frame is the lock call itself are meant */
const char *__tsan_default_suppressions (void);
const char *__tsan_default_suppressions (void)
{
  return "race_top:pthread_rwlock_rdlock\nrace_top:pthread_rwlock_wrlock\nrace_top:pthread_rwlock_unlock\nrace_top:pthread_rwlock_tryrdlock\nrace_top:pthread_rwlock_trywrlock\n";
}

/* ---- reference counts inside GValues: GLib's atomics on them order the last
 * use of a payload before its release */
static NOSAN void
value_sync (const GValue *v)
{
  gpointer p = NULL;
  if (v == NULL || G_VALUE_TYPE (v) == 0) return;
  if (G_VALUE_HOLDS_OBJECT (v)) p = g_value_get_object (v);
  else if (G_VALUE_HOLDS_VARIANT (v)) p = g_value_get_variant (v);
  if (p) { __tsan_release (p); __tsan_acquire (p); }
}
void __real_g_value_unset (GValue *v);
void __wrap_g_value_unset (GValue *v) { value_sync (v); __real_g_value_unset (v); }
void __real_g_value_copy (const GValue *a, GValue *b);
void __wrap_g_value_copy (const GValue *a, GValue *b) { value_sync (a); __real_g_value_copy (a, b); }
void __real_g_variant_unref (GVariant *v);
void __wrap_g_variant_unref (GVariant *v) { __tsan_release (v); __tsan_acquire (v); __real_g_variant_unref (v); }
