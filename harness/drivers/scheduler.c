/* C17-C20: main scheduler, thread pool, work stealing queue, semaphore */
// COV
#include "vout.h"
#include "dex-scheduler-private.h"
#include "dex-work-stealing-queue-private.h"
#include "dex-semaphore-private.h"
#include "dex-block-private.h"

#define SEMCLOSED (V_OUT_DEXERR + 2 * DEX_ERROR_SEMAPHORE_CLOSED)

static GThread *main_thread;
static __thread int on_driver_thread;   /* set on the threads the driver starts itself */

static gboolean
on_pool_thread (void)
{
  DexScheduler *s = dex_scheduler_get_thread_default ();
  return s != NULL && !strcmp (DEX_OBJECT_TYPE_NAME (s), "DexThreadPoolWorker");
}

/* ================================================================ items with accounting
 * An item knows which function it is to be run by and carries a checksum, so a
 * torn, repeated or invented item is noticed when it runs. */
typedef struct _Run Run;
typedef struct {
  Run *run;
  guint32 fn, pusher, seq, check;
  _Atomic int runs;
  guint8 depth;
} It;
#define MAXP 24
struct _Run {
  int pushed, ran;                    /* totals */
  _Atomic int expect[MAXP];           /* next seq of each pusher, where the order counts */
  int own_seq;                        /* seq of what items push themselves */
  gboolean to_main, ordered;
  DexScheduler *target;
  _Atomic int stolen_like;
  int fibers_due, fibers_ran;
  guint nested_pct, fiber_pct;
  _Atomic uint64_t sig;
  GPtrArray *all; GMutex lock;
  GHashTable *threads;
};
static void it_f0 (gpointer d), it_f1 (gpointer d), it_f2 (gpointer d), it_f3 (gpointer d);
static DexSchedulerFunc it_funcs[] = { it_f0, it_f1, it_f2, it_f3 };

static It *
it_new (Run *run, guint pusher, guint seq, guint depth, VRng *rng)
{
  It *it = g_new0 (It, 1);
  it->run = run; it->pusher = pusher; it->seq = seq; it->depth = depth;
  it->fn = v_below (rng, 4);
  it->check = (guint32) v_mix (((guint64) it->fn << 60) ^ ((guint64) pusher << 40) ^ seq);
  g_mutex_lock (&run->lock);
  g_ptr_array_add (run->all, it);
  g_mutex_unlock (&run->lock);
  return it;
}
static void
it_push (It *it)
{
  g_atomic_int_inc (&it->run->pushed);
  dex_scheduler_push (it->run->target, it_funcs[it->fn], it);
}
static DexFuture *
pool_fiber (gpointer data)
{
  It *it = data;
  Run *run = it->run;
  int n = ++it->runs;
  v_check (n == 1, "fiber-twice", "a fiber ran %d times", n);
  v_check (on_pool_thread (), "wrong-thread", "a fiber given to the pool runs on another thread");
  if (it->seq & 1)
    {
      /* work given to the pool by a fiber of the pool */
      VRng r = { it->check };
      It *k = it_new (run, MAXP - 1, g_atomic_int_add (&run->own_seq, 1), 3, &r);
      it_push (k);
    }
  v_event (1);
  g_atomic_int_inc (&run->fibers_ran);
  return dex_future_new_true ();
}
static void it_fiber_free (gpointer d) { It *it = d; g_atomic_int_inc (&it->run->ran); }
static void
it_run (It *it, guint fn)
{
  Run *run = it->run;
  VRng r;
  int n = ++it->runs;
  v_check (it->check == (guint32) v_mix (((guint64) it->fn << 60) ^ ((guint64) it->pusher << 40) ^ it->seq) && it->fn == fn,
           "item-torn", "item %u of pusher %u was run by function %u, not %u", it->seq, it->pusher, fn, it->fn);
  v_check (n == 1, "item-twice", "item %u of pusher %u ran %d times", it->seq, it->pusher, n);
  r.s = it->check;
  if (run->to_main)
    {
      v_check (g_thread_self () == main_thread, "wrong-thread", "an item of the main scheduler ran on another thread");
      v_check (dex_scheduler_get_thread_default () == dex_scheduler_get_default (), "wrong-scheduler", "an item sees another scheduler");
    }
  else
    v_check (on_pool_thread () && !on_driver_thread && g_thread_self () != main_thread, "wrong-thread", "an item of the pool ran outside its threads");
  if (run->ordered)
    {
      int want = run->expect[it->pusher]++;
      v_check (want == (int) it->seq, "item-order", "item %u of pusher %u ran when item %d was due", it->seq, it->pusher, want);
      run->sig = v_hash_add (run->sig, it->pusher);
    }
  else
    {
      g_mutex_lock (&run->lock);
      g_hash_table_add (run->threads, g_thread_self ());
      g_mutex_unlock (&run->lock);
    }
  v_event (1);
  if (it->depth < 3 && v_chance (&r, run->nested_pct))
    for (guint k = 1 + v_below (&r, 3); k; k--)
      it_push (it_new (run, MAXP - 1, g_atomic_int_add (&run->own_seq, 1), it->depth + 1, &r));
  if (run->fiber_pct && it->depth < 3 && v_chance (&r, run->fiber_pct))
    {
      It *k = it_new (run, MAXP - 1, g_atomic_int_add (&run->own_seq, 1), 3, &r);
      g_atomic_int_inc (&run->pushed);
      g_atomic_int_inc (&run->fibers_due);
      dex_unref (dex_scheduler_spawn (run->target, 0, pool_fiber, k, it_fiber_free));
    }
  if (v_chance (&r, 10)) v_noise_point ();
  g_atomic_int_inc (&run->ran);
}
static void it_f0 (gpointer d) { it_run (d, 0); }
static void it_f1 (gpointer d) { it_run (d, 1); }
static void it_f2 (gpointer d) { it_run (d, 2); }
static void it_f3 (gpointer d) { it_run (d, 3); }

static Run *
run_new (DexScheduler *target, gboolean to_main)
{
  Run *run = g_new0 (Run, 1);
  run->target = target; run->to_main = run->ordered = to_main;
  run->all = g_ptr_array_new_with_free_func (g_free);
  run->threads = g_hash_table_new (NULL, NULL);
  g_mutex_init (&run->lock);
  return run;
}
static gboolean run_done (gpointer d) { Run *r = d; int p = g_atomic_int_get (&r->pushed); return g_atomic_int_get (&r->ran) >= p && g_atomic_int_get (&r->pushed) == p; }
static void
run_end (Run *run, const char *what)
{
  /* what is not due any more must not run either: give it the chance */
  v_drain ();
  g_mutex_lock (&run->lock);
  for (guint i = 0; i < run->all->len; i++)
    {
      It *it = run->all->pdata[i];
      v_check (it->runs == 1, "item-lost", "%s: item %u of pusher %u ran %d times", what, it->seq, it->pusher, it->runs);
    }
  v_check (run->fibers_ran == run->fibers_due, "fiber-lost", "%s: %d fibers given, %d ran", what, run->fibers_due, run->fibers_ran);
  v_eval (run->all->len);
  g_mutex_unlock (&run->lock);
  g_ptr_array_unref (run->all);
  g_hash_table_unref (run->threads);
  g_mutex_clear (&run->lock);
  g_free (run);
}

/* ================================================================ C17 */
typedef struct { Run *run; guint n[8]; guint nt; gboolean block; guint slow; int left; } Mp;
static void
mp_pusher (guint idx, VRng *rng, gpointer data)
{
  Mp *m = data;
  on_driver_thread = 1;
  for (guint k = 0; k < m->n[idx]; k++)
    {
      It *it = it_new (m->run, idx, k, 0, rng);
      if (v_chance (rng, m->slow)) v_rnd_usleep (rng, 200);
      else if (v_chance (rng, 10)) v_noise_point ();
      it_push (it);
    }
  g_atomic_int_inc (&m->left);
  /* mp_done() depends on this as well, and it is no business of the library */
  g_main_context_wakeup (NULL);
}
static gboolean mp_done (gpointer d) { Mp *m = d; return g_atomic_int_get (&m->left) == (int) m->nt && run_done (m->run); }
static void
mp_main (guint idx, VRng *rng, gpointer data)
{
  Mp *m = data;
  /* the main thread pushes too, in between and while it runs items */
  guint k = 0;
  while (k < m->n[idx])
    {
      it_push (it_new (m->run, idx, k++, 0, rng));
      if (v_chance (rng, 40)) g_main_context_iteration (NULL, FALSE);
    }
  if (m->block) v_block_until (mp_done, m, "items pushed to the main scheduler");
  else v_run_until (mp_done, m, "items pushed to the main scheduler");
}
typedef struct { Mp *m; guint idx; VRng rng; } MpPool;
static void mp_pool_item (gpointer d) { MpPool *p = d; mp_pusher (p->idx, &p->rng, p->m); on_driver_thread = 0; }
static gboolean mp_idle (gpointer d) { return --*(int *) d > 0; }
static void
s_main_push (void)
{
  gint64 l0;
  Mp m = { 0 };
  guint np, nthreads = 1 + v_below (&v_rng, 4);
  MpPool pp[3];
  int other = v_chance (&v_rng, 30) ? v_below (&v_rng, 30) : 0;
  np = v_below (&v_rng, 4);
  v_pool (); l0 = v_base ();
  main_thread = g_thread_self ();
  m.run = run_new (dex_scheduler_get_default (), TRUE);
  m.run->nested_pct = v_below (&v_rng, 3) * 20;
  m.block = v_chance (&v_rng, 60); m.slow = v_below (&v_rng, 3) * 15;
  m.nt = nthreads + np;
  for (guint i = 0; i < 8; i++) m.n[i] = v_chance (&v_rng, 30) ? 1 : v_below (&v_rng, 60);
  if (other) g_timeout_add (1, mp_idle, &other); /* other sources of the same loop */
  for (guint i = 0; i < np; i++)
    {
      pp[i] = (MpPool) { &m, nthreads + 1 + i, { v_rand (&v_rng) } };
      dex_scheduler_push (v_pool (), mp_pool_item, &pp[i]);
    }
  v_par_main (nthreads, mp_pusher, &m, mp_main);
  v_block_until (mp_done, &m, "items pushed to the main scheduler");
  for (guint i = 0; i < nthreads + 1 + np; i++)
    v_check (m.run->expect[i] == (int) m.n[i], "item-lost", "%d of %u items of pusher %u ran", m.run->expect[i], m.n[i], i);
  while (other > 0) g_main_context_iteration (NULL, TRUE);
  v_sig (m.run->sig);
  v_sample ("%u threads and %u pool items push %d items, %d by running items", nthreads, np, m.run->pushed, m.run->own_seq);
  run_end (m.run, "main scheduler");
  v_expect_live (l0, "main scheduler");
}

/* every way to make the main loop do something from another thread, one at a time, with the loop asleep */
typedef struct { int stage, done; int kinds[64]; guint n; DexPromise *p[64]; VRng rng; int fin; } Pg;
static void pg_item (gpointer d) { Pg *g = d; v_check (g_thread_self () == main_thread, "wrong-thread", "item elsewhere"); g_atomic_int_inc (&g->stage); }
static DexFuture *pg_fiber (gpointer d) { pg_item (d); return NULL; }
static DexFuture *
pg_waiter (gpointer d)
{
  Pg *g = d;
  for (guint i = 0; i < g->n; i++)
    if (g->kinds[i] == 2) { v_check (dex_await (dex_ref (g->p[i]), NULL), "await-outcome", "await failed"); pg_item (g); }
  return NULL;
}
static DexFuture *pg_then (DexFuture *f, gpointer d) { pg_item (d); return dex_ref (f); }
static void
pg_thread (guint idx, VRng *rng, gpointer data)
{
  Pg *g = data;
  on_driver_thread = 1;
  for (guint i = 0; i < g->n; i++)
    {
      if (v_chance (rng, 50)) v_rnd_usleep (rng, v_chance (rng, 5) ? 3000 : 150);
      switch (g->kinds[i])
        {
        case 0: dex_scheduler_push (dex_scheduler_get_default (), pg_item, g); break;
        case 1: dex_unref (dex_scheduler_spawn (NULL, 0, pg_fiber, g, NULL)); break;
        default: dex_promise_resolve_boolean (g->p[i], TRUE); break;
        }
      v_wait_count (&g->stage, i + 1, "the main loop does what it was given");
    }
  /* the last thing is only there to end the loop */
  g_atomic_int_set (&g->fin, 1);
  g_main_context_wakeup (NULL);
}
static gboolean pg_done (gpointer d) { return g_atomic_int_get (&((Pg *) d)->fin); }
static void pg_main (guint idx, VRng *rng, gpointer d) { v_block_until (pg_done, d, "one thing after another for a sleeping main loop"); }
static void
s_main_wake (void)
{
  gint64 l0 = v_live ();
  Pg g = { 0 };
  DexFuture *w, *b[64] = { 0 };
  uint64_t sig = 1;
  main_thread = g_thread_self ();
  g.n = 5 + v_below (&v_rng, 60);
  for (guint i = 0; i < g.n; i++)
    {
      g.kinds[i] = v_below (&v_rng, 4);
      sig = v_hash_add (sig, g.kinds[i]);
      if (g.kinds[i] >= 2) g.p[i] = dex_promise_new ();
      if (g.kinds[i] == 3) b[i] = dex_future_then (dex_ref (g.p[i]), pg_then, &g, NULL);
    }
  w = dex_scheduler_spawn (NULL, 0, pg_waiter, &g, NULL);
  v_drain ();
  v_par_main (1, pg_thread, &g, pg_main);
  v_run_until_settled (w, "waiting fiber");
  for (guint i = 0; i < g.n; i++) { dex_clear (&b[i]); dex_clear (&g.p[i]); }
  dex_unref (w);
  v_eval (g.n); v_event (g.n); v_sig (sig); v_count ("wakeups_of_main", g.n);
  v_sample ("%u wakeups of a sleeping main loop", g.n);
  v_expect_live (l0, "wakeups");
}

/* ================================================================ C18 */
typedef struct { Run *run; guint n[8]; guint fibpct, slow; } Po;
static void
po_pusher (guint idx, VRng *rng, gpointer data)
{
  Po *p = data;
  on_driver_thread = 1;
  for (guint k = 0; k < p->n[idx]; k++)
    {
      It *it = it_new (p->run, idx, k, 0, rng);
      if (v_chance (rng, p->slow)) v_rnd_usleep (rng, 150);
      if (v_chance (rng, p->fibpct))
        {
          g_atomic_int_inc (&p->run->pushed); g_atomic_int_inc (&p->run->fibers_due);
          dex_unref (dex_scheduler_spawn (p->run->target, v_chance (rng, 20) ? 65536 : 0, pool_fiber, it, it_fiber_free));
        }
      else it_push (it);
    }
}
static void po_main (guint idx, VRng *rng, gpointer data) { po_pusher (idx, rng, data); on_driver_thread = 0; }
static void
s_pool_once (void)
{
  gint64 l0;
  Po p = { 0 };
  guint nt = 1 + v_below (&v_rng, 4), big = v_chance (&v_rng, 15), nthr;
  v_pool (); l0 = v_base ();
  main_thread = g_thread_self ();
  p.run = run_new (v_pool (), FALSE);
  p.run->nested_pct = v_below (&v_rng, 4) * 20; p.run->fiber_pct = v_below (&v_rng, 3) * 10;
  p.fibpct = v_below (&v_rng, 3) * 20; p.slow = v_below (&v_rng, 3) * 10;
  for (guint i = 0; i < 8; i++) p.n[i] = v_below (&v_rng, big ? 500 : 50);
  v_par_main (nt, po_pusher, &p, po_main);
  v_run_until (run_done, p.run, "items given to the pool");
  v_run_until_count (&p.run->fibers_ran, p.run->fibers_due, "fibers given to the pool");
  g_mutex_lock (&p.run->lock);
  nthr = g_hash_table_size (p.run->threads);
  g_mutex_unlock (&p.run->lock);
  v_sigf ("%u %u %d %d", nthr, nt, p.run->pushed, p.run->fibers_due);
  v_sample ("%u threads give %d items and %d fibers to the pool, which runs them on %u threads", nt + 1, p.run->pushed - p.run->fibers_due, p.run->fibers_due, nthr);
  run_end (p.run, "pool");
  v_expect_live (l0, "pool");
}
/* a little at a time, the pool asleep in between */
static void
s_pool_trickle (void)
{
  gint64 l0;
  Run *run;
  guint waves = 5 + v_below (&v_rng, 20), seq = 0;
  uint64_t sig = 2;
  v_pool (); l0 = v_base ();
  main_thread = g_thread_self ();
  run = run_new (v_pool (), FALSE);
  run->nested_pct = v_below (&v_rng, 3) * 30;
  for (guint w = 0; w < waves; w++)
    {
      guint n = 1 + v_below (&v_rng, v_chance (&v_rng, 20) ? 40 : 3);
      for (guint i = 0; i < n; i++)
        {
          It *it = it_new (run, 0, seq++, 0, &v_rng);
          if (v_chance (&v_rng, 25))
            {
              g_atomic_int_inc (&run->pushed); g_atomic_int_inc (&run->fibers_due);
              dex_unref (dex_scheduler_spawn (run->target, 0, pool_fiber, it, it_fiber_free));
            }
          else it_push (it);
        }
      v_run_until (run_done, run, "a few items for a pool at rest");
      sig = v_hash_add (sig, n);
      if (v_chance (&v_rng, 50)) v_rnd_usleep (&v_rng, 500);
    }
  v_run_until (run_done, run, "items given to the pool");
  v_sig (sig);
  v_sample ("%u waves of work, %d items in all", waves, run->pushed);
  run_end (run, "pool");
  v_expect_live (l0, "pool");
}
/* pools that give work to each other: an item belongs to the pool it was given to, whoever gives it */
typedef struct { DexScheduler *pool[3]; GMutex lock; GHashTable *threads[3]; int np, ran, due, left; VRng rng; } Cr;
typedef struct { Cr *c; int on, depth; int *wait; } CrIt;
static void cr_give (Cr *c, int to, int depth, int *wait);
static void
cr_run (CrIt *it)
{
  Cr *c = it->c;
  int todo = 0, w[3], done = 0, block;
  v_noise_point ();
  g_mutex_lock (&c->lock);
  g_hash_table_add (c->threads[it->on], g_thread_self ());
  for (int i = 0; i < c->np; i++)
    if (i != it->on) v_check (!g_hash_table_contains (c->threads[i], g_thread_self ()), "wrong-thread", "work of two pools ran on one thread");
  if (it->depth > 0)
    while (todo < 3 && c->left > 0 && v_chance (&c->rng, 70)) { c->left--; w[todo++] = v_below (&c->rng, c->np); }
  /* threads of a pool may wait for work of one further on: nothing there waits for them */
  block = v_chance (&c->rng, 40);
  g_mutex_unlock (&c->lock);
  for (int i = 0; i < todo; i++)
    {
      if (block) w[i] = it->on + 1;
      if (w[i] < c->np) cr_give (c, w[i], it->depth - 1, block ? &done : NULL);
      else { w[i] = -1; done++; }
    }
  if (block) v_wait_count (&done, todo, "work given to another pool while this thread waits");
  if (it->wait) g_atomic_int_inc (it->wait);
  g_atomic_int_inc (&c->ran);
  g_free (it);
}
static void cr_item (gpointer d) { cr_run (d); }
static DexFuture *cr_fiber (gpointer d) { cr_run (d); return dex_future_new_true (); }
static void
cr_give (Cr *c, int to, int depth, int *wait)
{
  CrIt *it = g_new0 (CrIt, 1);
  gboolean fib;
  *it = (CrIt) { c, to, depth, wait };
  g_atomic_int_inc (&c->due);
  g_mutex_lock (&c->lock); fib = v_chance (&c->rng, 30); g_mutex_unlock (&c->lock);
  if (fib && !wait) dex_unref (dex_scheduler_spawn (c->pool[to], 0, cr_fiber, it, NULL));
  else dex_scheduler_push (c->pool[to], cr_item, it);
}
static gboolean cr_done (gpointer d) { Cr *c = d; return g_atomic_int_get (&c->ran) == g_atomic_int_get (&c->due); }
static void
s_pool_cross (void)
{
  gint64 l0;
  Cr c = { .np = 2 + v_chance (&v_rng, 30), .left = 20 + v_below (&v_rng, 60) };
  int n = 1 + v_below (&v_rng, 8), th = 0;
  v_pool (); l0 = v_base ();
  g_mutex_init (&c.lock); c.rng.s = v_rand (&v_rng);
  for (int i = 0; i < c.np; i++)
    {
      c.pool[i] = i ? dex_thread_pool_scheduler_new () : dex_ref (v_pool ());
      c.threads[i] = g_hash_table_new (NULL, NULL);
    }
  for (int i = 0; i < n; i++) cr_give (&c, v_below (&v_rng, c.np), 3, NULL);
  v_run_until (cr_done, &c, "pools giving work to each other");
  for (int i = 0; i < c.np; i++) { th += g_hash_table_size (c.threads[i]); g_hash_table_unref (c.threads[i]); dex_unref (c.pool[i]); }
  v_eval (c.due); v_event (c.due); v_sigf ("%d %d %d", c.np, c.due, th);
  v_sample ("%d pools give %d items to each other, run on %d threads", c.np, c.due, th);
  g_mutex_clear (&c.lock);
  v_expect_live (l0, "pools giving work to each other");
}

/* pools come and go */
static int
n_tasks (void)
{
  GDir *d = g_dir_open ("/proc/self/task", 0, NULL);
  int n = 0;
  if (!d) return -1;
  for (const char *t; (t = g_dir_read_name (d));)
    { /* without the threads the kernel has for io_uring */
      g_autofree char *f = g_strdup_printf ("/proc/self/task/%s/comm", t), *c = NULL;
      if (g_file_get_contents (f, &c, NULL, NULL) && !g_str_has_prefix (c, "iou-")) n++;
    }
  g_dir_close (d);
  return n;
}
typedef struct { int tasks; gint64 workers; } Left;
/* the kernel may cut the list of tasks short when one of them exits */
static gboolean tasks_cond (gpointer d) { Left *l = d; return v_live_type ("DexThreadPoolWorker") <= l->workers && n_tasks () <= l->tasks && n_tasks () <= l->tasks; }
/* the last reference to a pool is given up by what runs on a thread of a pool */
static void drop_item (gpointer d) { v_noise_point (); dex_unref (d); }
static void drop_nested (gpointer d) { v_noise_point (); dex_ref (d); dex_scheduler_push (d, drop_item, d); dex_unref (d); if (GPOINTER_TO_SIZE (d) & 0x100) g_usleep (300); }
static DexFuture *drop_fiber (gpointer d) { v_noise_point (); dex_unref (d); return dex_future_new_true (); }
static DexFuture *drop_block (DexFuture *f, gpointer d) { return NULL; }
static DexFuture *
after_release (gpointer d)
{
  DexSemaphore *sem = dex_semaphore_new ();
  DexFuture *f = dex_semaphore_wait (sem);
  dex_semaphore_post (sem);
  dex_await (f, NULL);
  dex_unref (sem);
  return dex_future_new_true ();
}
static void
drop_pool (DexScheduler *pool)
{
  int how = v_below (&v_rng, 8);
  v_sigf ("%d", how); if (getenv ("DBG")) g_printerr ("how %d\n", how);
  switch (how)
    {
    case 0: dex_ref (pool); dex_scheduler_push (pool, drop_item, pool); dex_unref (pool); break;
    case 1: dex_ref (pool); dex_scheduler_push (pool, drop_nested, pool); dex_unref (pool); break;
    case 2: dex_ref (pool); dex_unref (dex_scheduler_spawn (pool, 0, drop_fiber, pool, NULL)); dex_unref (pool); break;
    case 3: dex_scheduler_push (v_pool (), drop_item, pool); break;
    case 4:
      { /* a block that refers to its scheduler, which runs it and lets go of it any time */
        DexPromise *p = dex_promise_new ();
        DexFuture *b = dex_block_new (dex_ref (p), pool, DEX_BLOCK_KIND_FINALLY, drop_block, NULL, NULL);
        dex_promise_resolve_int (p, 1);
        v_run_until_settled (b, "a block on a pool of its own");
        dex_unref (pool); dex_unref (b); dex_unref (p);
        break;
      }
    default: dex_unref (pool); break;
    }
}
static void
s_pool_release (void)
{
  gint64 l0, w0;
  DexScheduler *pool[2];
  Po p[2] = { { 0 } };
  int np = 1 + v_chance (&v_rng, 30);
  static int warm, t0;
  v_pool (); main_thread = g_thread_self ();
  if (!warm) { warm = 1; pool[0] = dex_thread_pool_scheduler_new (); dex_unref (pool[0]); v_live_settled (); do { t0 = n_tasks (); g_usleep (100000); } while (n_tasks () != t0); }
  l0 = v_base (); w0 = v_live_type ("DexThreadPoolWorker");
  for (int i = 0; i < np; i++)
    {
      pool[i] = dex_thread_pool_scheduler_new ();
      v_check (n_tasks () > t0, "pool-no-threads", "a pool without threads");
      p[i].run = run_new (pool[i], FALSE);
      p[i].run->nested_pct = v_below (&v_rng, 3) * 20; p[i].run->fiber_pct = v_below (&v_rng, 3) * 10;
      p[i].fibpct = v_below (&v_rng, 3) * 20;
      for (guint j = 0; j < 8; j++) p[i].n[j] = v_chance (&v_rng, 30) ? 0 : v_below (&v_rng, 40);
    }
  for (int i = 0; i < np; i++) v_par_main (v_below (&v_rng, 3), po_pusher, &p[i], po_main);
  for (int i = 0; i < np; i++)
    {
      v_run_until (run_done, p[i].run, "items given to a pool of its own");
      v_run_until_count (&p[i].run->fibers_ran, p[i].run->fibers_due, "fibers given to a pool of its own");
    }
  if (np == 2)
    {
      GHashTableIter it; gpointer k;
      g_hash_table_iter_init (&it, p[0].run->threads);
      while (g_hash_table_iter_next (&it, &k, NULL))
        v_check (!g_hash_table_contains (p[1].run->threads, k), "wrong-thread", "work of two pools ran on one thread");
    }
  for (int i = 0; i < np; i++)
    {
      v_sigf ("%d %d %d %d", np, p[i].run->pushed, p[i].run->fibers_due, g_hash_table_size (p[i].run->threads));
      v_sample ("pool of its own: %d items, %d fibers, on %d threads", p[i].run->pushed, p[i].run->fibers_due, g_hash_table_size (p[i].run->threads));
      run_end (p[i].run, "pool of its own");
      drop_pool (pool[i]);
    }
  v_run_until (tasks_cond, &(Left) { t0, w0 }, "the threads of a released pool end");
  { /* what does I/O goes on, on whatever thread the pool was released */
    DexSemaphore *sem = dex_semaphore_new ();
    DexFuture *f = dex_semaphore_wait (sem), *g = dex_scheduler_spawn (v_pool (), 0, after_release, NULL, NULL);
    dex_semaphore_post (sem);
    v_run_until_settled (f, "waiting on the main thread after a pool was released");
    v_run_until_settled (g, "waiting on a pool after another was released");
    dex_unref (f); dex_unref (g); dex_unref (sem);
  }
  v_check (v_live_type ("DexThreadPoolWorker") == w0, "worker-leak", "%d workers left of a released pool", (int) (v_live_type ("DexThreadPoolWorker") - w0));
  v_expect_live (l0, "pools released");
}

/* items that can only end together: every worker at rest has to take one */
typedef struct { GMutex m; GCond c; guint k, arrived, left, timeouts; DexScheduler *pool; guint per[8]; } Gang;
static void
gang_item (gpointer data)
{
  Gang *g = data;
  gint64 end = g_get_monotonic_time () + 25 * G_USEC_PER_SEC;
  g_mutex_lock (&g->m);
  g->arrived++;
  g_cond_broadcast (&g->c);
  while (g->arrived < g->k)
    if (!g_cond_wait_until (&g->c, &g->m, end)) { g->timeouts++; g->arrived = g->k; g_cond_broadcast (&g->c); }
  g->left++;
  g_mutex_unlock (&g->m);
}
static void
gang_pusher (guint idx, VRng *rng, gpointer data)
{
  Gang *g = data;
  for (guint i = 0; i < g->per[idx]; i++) { v_noise_point (); dex_scheduler_push (g->pool, gang_item, g); }
}
static gboolean gang_done (gpointer d) { Gang *g = d; gboolean r; g_mutex_lock (&g->m); r = g->left >= g->k; g_mutex_unlock (&g->m); return r; }
static void
s_pool_gang (void)
{
  DexScheduler *pool = v_pool ();
  guint nw, rounds = 3 + v_below (&v_rng, 20);
  gint64 l0 = v_base ();
  uint64_t sig = 3;
  Gang g = { 0 };
  main_thread = g_thread_self ();
  nw = (guint) v_live_type ("DexThreadPoolWorker");
  v_check (nw > 0, "pool-no-threads", "a pool without threads");
  g_mutex_init (&g.m); g_cond_init (&g.c); g.pool = pool;
  for (guint r = 0; r < rounds; r++)
    {
      guint np = 1 + v_below (&v_rng, 3);
      g.k = v_chance (&v_rng, 50) ? nw : 1 + v_below (&v_rng, nw); g.arrived = g.left = 0;
      memset (g.per, 0, sizeof g.per);
      for (guint i = 0; i < g.k; i++) g.per[v_below (&v_rng, np)]++;
      if (v_chance (&v_rng, 30)) v_rnd_usleep (&v_rng, 300);
      if (np == 1 || v_chance (&v_rng, 30)) for (guint i = 0; i < np; i++) gang_pusher (i, &v_rng, &g);
      else v_par (np, gang_pusher, &g);
      v_run_until (gang_done, &g, "items that run side by side");
      if (g.timeouts) v_fail ("item-waits", "%u items given to a pool of %u threads at rest do not run side by side", g.k, nw);
      sig = v_hash_add (v_hash_add (sig, g.k), np);
      v_eval (1); v_event (g.k);
    }
  v_sig (sig);
  v_sample ("%u rounds of up to %u items that end together", rounds, nw);
  g_mutex_clear (&g.m); g_cond_clear (&g.c);
  v_expect_live (l0, "pool");
}

/* ================================================================ C19 */
typedef struct { guint32 fn, seq, check; _Atomic int taken; } Wi;
static void wi_f0 (gpointer d) { }
static void wi_f1 (gpointer d) { volatile int x = 1; (void) x; }
static void wi_f2 (gpointer d) { volatile int x = 2; (void) x; }
static DexSchedulerFunc wi_funcs[] = { wi_f0, wi_f1, wi_f2 };
static void
wi_take (Wi *items, guint n, DexWorkItem w, const char *who)
{
  Wi *i = w.func_data;
  int t;
  v_check (i >= items && i < items + n && ((char *) i - (char *) items) % sizeof (Wi) == 0, "item-torn", "%s got an item that was never pushed", who);
  v_check (w.func == wi_funcs[i->fn] && i->check == (guint32) v_mix (i->seq * 7 + i->fn), "item-torn", "%s got item %u with the function of another", who, i->seq);
  t = ++i->taken;
  v_check (t == 1, "item-twice", "item %u taken %d times, last by the %s", i->seq, t, who);
}
static DexWorkItem
wi_make (Wi *items, guint k, VRng *rng)
{
  items[k].seq = k; items[k].fn = v_below (rng, 3); items[k].check = (guint32) v_mix (k * 7 + items[k].fn); items[k].taken = 0;
  return (DexWorkItem) { wi_funcs[items[k].fn], &items[k] };
}
static void
s_wsq_seq (void)
{
  static const int caps[] = { 1, 2, 3, 4, 7, 8, 16, 100, 255, 256 };
  int cap = caps[v_below (&v_rng, G_N_ELEMENTS (caps))];
  DexWorkStealingQueue *q = dex_work_stealing_queue_new (cap);
  gboolean lasting = v_iter % 100 == 7; /* positions that no 16 bits hold */
  guint steps = lasting ? 150000 : 200 + v_below (&v_rng, 1500), max = lasting ? steps : steps * 4, pushed = 0, bias = 30 + v_below (&v_rng, 40);
  Wi *items = g_new0 (Wi, max);
  guint *model = g_new (guint, max), lo = 0, hi = 0; /* model[lo..hi) */
  uint64_t sig = cap;
  v_check (dex_work_stealing_queue_capacity (q) >= cap, "wsq-capacity", "asked for %d, got %d", cap, (int) dex_work_stealing_queue_capacity (q));
  for (guint s = 0; s < steps; s++)
    {
      DexWorkItem w = { 0 };
      guint op = v_below (&v_rng, 100);
      if (op < bias)
        for (guint k = v_chance (&v_rng, 5) ? 1 + v_below (&v_rng, 40) : 1; k && pushed < max; k--)
          { dex_work_stealing_queue_push (q, wi_make (items, pushed, &v_rng)); model[hi++] = pushed++; }
      else
        {
          gboolean steal = op & 1, got = steal ? dex_work_stealing_queue_steal (q, &w) : dex_work_stealing_queue_pop (q, &w);
          v_check (got == (lo < hi), got ? "item-invented" : "item-missed", "%s from a queue holding %u items %s", steal ? "steal" : "pop", hi - lo, got ? "gave one" : "gave none");
          if (got)
            {
              guint want = steal ? model[lo++] : model[--hi];
              wi_take (items, pushed, w, steal ? "thief" : "owner");
              v_check (((Wi *) w.func_data)->seq == want, "wsq-order", "%s gave item %u, not %u", steal ? "steal" : "pop", ((Wi *) w.func_data)->seq, want);
            }
          sig = v_hash_add (sig, steal * 2 + got);
        }
      v_check (dex_work_stealing_queue_size (q) == hi - lo && dex_work_stealing_queue_empty (q) == (hi == lo), "wsq-size", "size %u empty %d with %u items", (guint) dex_work_stealing_queue_size (q), dex_work_stealing_queue_empty (q), hi - lo);
      v_eval (1); v_event (1);
    }
  v_sig (sig);
  v_sample ("queue of %d: %u steps, %u items, capacity %d at the end", cap, steps, pushed, (int) dex_work_stealing_queue_capacity (q));
  dex_work_stealing_queue_unref (q);
  g_free (items); g_free (model);
}
typedef struct {
  DexWorkStealingQueue *q; Wi *items; guint max, burst, ownpct; _Atomic guint pushed; _Atomic int stop;
  _Atomic int stolen, popped, missed; _Atomic uint64_t sig; _Atomic int ready;
} Ws;
static void
ws_thread (guint idx, VRng *rng, gpointer data)
{
  Ws *w = data;
  DexWorkItem it;
  if (idx == 0)
    {
      /* the owner */
      guint pushed = 0;
      while (pushed < w->max)
        {
          guint k = 1 + v_below (rng, w->burst);
          while (k-- && pushed < w->max)
            {
              DexWorkItem n = wi_make (w->items, pushed, rng);
              pushed++; w->pushed = pushed;
              dex_work_stealing_queue_push (w->q, n);
            }
          for (k = v_below (rng, w->ownpct * w->burst / 50 + 1); k; k--)
            {
              if (!dex_work_stealing_queue_pop (w->q, &it))
                {
                  /* empty for the owner: thieves have got everything, or are about to return with it */
                  v_check (dex_work_stealing_queue_size (w->q) == 0, "item-missed", "pop found nothing in a queue of %u", (guint) dex_work_stealing_queue_size (w->q));
                  v_check (dex_work_stealing_queue_empty (w->q), "item-missed", "pop found nothing in a queue that is not empty");
                  w->missed++;
                  break;
                }
              wi_take (w->items, w->max, it, "owner");
              w->popped++;
            }
          if (v_chance (rng, 20)) v_noise_point ();
        }
      while (dex_work_stealing_queue_pop (w->q, &it)) { wi_take (w->items, w->max, it, "owner"); w->popped++; }
      w->stop = 1;
    }
  else
    {
      gint64 last = -1; guint idle = 0, mine = 0;
      for (;;)
        {
          int stop = w->stop;
          if (dex_work_stealing_queue_steal (w->q, &it))
            {
              wi_take (w->items, w->max, it, "thief");
              v_check ((gint64) ((Wi *) it.func_data)->seq > last, "wsq-order", "a thief got item %u after item %d", ((Wi *) it.func_data)->seq, (int) last);
              last = ((Wi *) it.func_data)->seq;
              w->stolen++; mine++; idle = 0;
            }
          else if (stop) break;
          else if (++idle > 200) { g_thread_yield (); idle = 0; }
          if (v_chance (rng, 5)) v_noise_point ();
        }
      w->sig += v_hash_add (idx, mine);
    }
}
static void
s_wsq_steal (void)
{
  static const int caps[] = { 1, 2, 4, 8, 255 };
  Ws w = { 0 };
  guint rounds = 1 + v_below (&v_rng, 4), nthieves = 1 + v_below (&v_rng, 4);
  int cap = caps[v_below (&v_rng, 5)];
  w.q = dex_work_stealing_queue_new (cap);
  w.max = v_chance (&v_rng, 20) ? 3000 : 50 + v_below (&v_rng, 600);
  w.items = g_new0 (Wi, w.max);
  for (guint r = 0; r < rounds; r++)
    {
      w.burst = v_chance (&v_rng, 40) ? 1 + v_below (&v_rng, 3) : 1 + v_below (&v_rng, 200); w.ownpct = v_below (&v_rng, 101);
      w.pushed = 0; w.stop = 0;
      v_par (1 + nthieves, ws_thread, &w);
      for (guint i = 0; i < w.max; i++)
        v_check (w.items[i].taken == 1, "item-lost", "item %u of %u taken %d times", i, w.max, w.items[i].taken);
      v_check (dex_work_stealing_queue_empty (w.q) && dex_work_stealing_queue_size (w.q) == 0, "wsq-size", "everything taken, and the queue has %u items", (guint) dex_work_stealing_queue_size (w.q));
      v_eval (w.max); v_event (w.max);
    }
  v_sig (w.sig);
  v_count ("items_stolen", w.stolen); v_count ("items_popped", w.popped); v_count ("pops_that_lost", w.missed);
  v_sample ("queue of %d, %u thieves: %d stolen, %d popped, capacity %d at the end", cap, nthieves, w.stolen, w.popped, (int) dex_work_stealing_queue_capacity (w.q));
  dex_work_stealing_queue_unref (w.q);
  g_free (w.items);
}
/* the queues of real workers: an item floods its own queue and stays busy while others are awake */
typedef struct { int n, ran, stolen, over; GThread *owner; guint busy, wave; } Fl;
typedef struct { Fl *fl; guint idx; _Atomic int ran; } FlIt;
static __thread gint64 fl_last; static __thread Fl *fl_last_of; static __thread guint fl_wave;
static void
fl_item (gpointer d)
{
  FlIt *i = d;
  Fl *fl = i->fl;
  int n = ++i->ran;
  v_check (n == 1, "item-twice", "item %u of a flooded worker ran %d times", i->idx, n);
  v_check (on_pool_thread (), "wrong-thread", "a stolen item runs outside the pool");
  if (g_thread_self () != fl->owner)
    {
      g_atomic_int_inc (&fl->stolen);
      if (fl_last_of != fl || fl_wave != fl->wave) { fl_last_of = fl; fl_wave = fl->wave; fl_last = -1; }
      v_check ((gint64) i->idx > fl_last, "wsq-order", "a worker stole item %u after item %d", i->idx, (int) fl_last);
      fl_last = i->idx;
    }
  g_atomic_int_inc (&fl->ran);
}
static void
fl_flood (gpointer d)
{
  FlIt *its = d;
  Fl *fl = its[0].fl;
  fl->owner = g_thread_self ();
  for (int i = 0; i < fl->n; i++) dex_scheduler_push (v_pool (), fl_item, &its[i]);
  for (guint k = 0; k < fl->busy && g_atomic_int_get (&fl->ran) < fl->n; k++) g_usleep (20);
  g_atomic_int_set (&fl->over, 1);
}
static guint wave_no;
static GPtrArray *worker_ctx; static GMutex worker_lock;
static DexFuture *
ctx_fiber (gpointer d)
{
  GMainContext *c = dex_scheduler_get_main_context (dex_scheduler_get_thread_default ());
  g_mutex_lock (&worker_lock);
  if (!g_ptr_array_find (worker_ctx, c, NULL)) g_ptr_array_add (worker_ctx, g_main_context_ref (c));
  g_mutex_unlock (&worker_lock);
  return dex_future_new_true ();
}
static void
s_wsq_pool (void)
{
  gint64 l0;
  Fl *fl = g_new0 (Fl, 1);
  FlIt *its;
  guint waves = 1 + v_below (&v_rng, 3);
  gint64 end;
  v_pool (); l0 = v_base ();
  if (!worker_ctx)
    {
      worker_ctx = g_ptr_array_new ();
      for (int i = 0; i < 64; i++)
        { DexFuture *f = dex_scheduler_spawn (v_pool (), 0, ctx_fiber, NULL, NULL); v_run_until_settled (f, "fiber on each worker"); dex_unref (f); }
      v_expect_live (l0, "fibers of the pool");
    }
  for (guint wv = 0; wv < waves; wv++)
    {
      memset (fl, 0, sizeof *fl);
      fl->n = v_chance (&v_rng, 40) ? 250 + v_below (&v_rng, 1500) : 1 + v_below (&v_rng, 60);
      fl->busy = v_below (&v_rng, 60); fl->wave = ++wave_no;
      its = g_new0 (FlIt, fl->n);
      for (int i = 0; i < fl->n; i++) { its[i].fl = fl; its[i].idx = i; }
      dex_scheduler_push (v_pool (), fl_flood, its);
      /* workers that are woken up with nothing to do look for work to take over */
      end = g_get_monotonic_time () + 5 * G_USEC_PER_SEC;
      while (g_atomic_int_get (&fl->ran) < fl->n && g_get_monotonic_time () < end)
        {
          g_main_context_wakeup (worker_ctx->pdata[v_below (&v_rng, worker_ctx->len)]);
          if (v_chance (&v_rng, 20)) v_rnd_usleep (&v_rng, 20);
        }
      v_run_until_count (&fl->ran, fl->n, "items of a flooded worker");
      v_run_until_count (&fl->over, 1, "the flooding item");
      for (int i = 0; i < fl->n; i++) v_check (its[i].ran == 1, "item-lost", "item %d ran %d times", i, its[i].ran);
      v_eval (fl->n); v_event (fl->n); v_sigf ("%d %d", fl->n, fl->stolen);
      v_count ("items_stolen_by_workers", fl->stolen);
      v_sample ("a worker with %d items, %d of them stolen", fl->n, fl->stolen);
      v_expect_live (l0, "flooded worker");
      g_free (its);
    }
  g_free (fl);
}

/* ================================================================ C20 */
typedef struct {
  DexSemaphore *sem;
  int posts_begun, waits_done, waits_ended, posters_left;
  guint nwaiters, nposters, per_wait[12], per_post[8];
  _Atomic uint64_t sig; _Atomic int max_ahead;
  gboolean many; int closing, closed_waits;
} Se;
static void
se_completed (Se *s)
{
  int done = g_atomic_int_add (&s->waits_done, 1) + 1;
  int posts = g_atomic_int_get (&s->posts_begun);
  v_check (done <= posts, "sem-invented", "%d waits completed with %d posts made", done, posts);
  s->sig = v_hash_add (s->sig, posts - done);
  v_event (1);
}
typedef struct { Se *s; guint n; VRng rng; } Sw;
static DexFuture *se_cb (DexFuture *f, gpointer d);
static DexFuture *
se_waiter (gpointer data)
{
  Sw *w = data;
  guint i = 0;
  while (i < w->n)
    {
      /* one at a time or a few outstanding at once */
      DexFuture *f[6];
      guint k = v_chance (&w->rng, 60) ? 1 : 1 + v_below (&w->rng, 6);
      k = MIN (k, w->n - i);
      for (guint j = 0; j < k; j++)
        {
          f[j] = dex_semaphore_wait (w->s->sem);
          /* of several outstanding waits any may be first */
          if (k > 1) f[j] = dex_future_finally (f[j], se_cb, w->s, NULL);
        }
      for (guint j = 0; j < k; j++)
        {
          GError *e = NULL;
          if (!dex_await (f[j], &e))
            v_fail ("sem-rejected", "a wait was rejected with %s", e->message);
          if (k == 1) se_completed (w->s);
        }
      i += k;
      if (v_chance (&w->rng, 20)) v_noise_point ();
    }
  g_atomic_int_inc (&w->s->waits_ended);
  return NULL;
}
static DexFuture *
se_cb (DexFuture *f, gpointer d)
{
  v_check (dex_future_is_resolved (f), "sem-rejected", "a wait was rejected");
  se_completed (d);
  return dex_ref (f);
}
static void
se_poster (guint idx, VRng *rng, gpointer data)
{
  Se *s = data;
  guint left = s->per_post[idx];
  while (left)
    {
      guint k = s->many && v_chance (rng, 40) ? 1 + v_below (rng, MIN (left, 9)) : 1;
      g_atomic_int_add (&s->posts_begun, k);
      if (k == 1 && v_chance (rng, 70)) dex_semaphore_post (s->sem);
      else dex_semaphore_post_many (s->sem, k);
      if (v_chance (rng, 5)) dex_semaphore_post_many (s->sem, 0);
      left -= k;
      if (v_chance (rng, 30)) v_noise_point ();
      if (v_chance (rng, 10)) v_rnd_usleep (rng, 100);
    }
}
static void
s_sema (void)
{
  gint64 l0;
  Se s = { 0 };
  Sw w[12];
  DexFuture *f[12], *cb[16];
  guint total_wait = 0, total_post = 0, ncb = v_below (&v_rng, 16), over;
  int target;
  v_pool (); l0 = v_base ();
  s.sem = dex_semaphore_new ();
  s.nwaiters = v_below (&v_rng, 10); s.nposters = 1 + v_below (&v_rng, 4); s.many = v_chance (&v_rng, 60);
  if (s.nwaiters == 0 && ncb == 0) ncb = 1;
  for (guint i = 0; i < s.nwaiters; i++) { s.per_wait[i] = 1 + v_below (&v_rng, 12); total_wait += s.per_wait[i]; }
  total_wait += ncb;
  for (guint i = 0; i <= s.nposters; i++) { s.per_post[i] = v_below (&v_rng, 30); total_post += s.per_post[i]; }
  for (guint i = 0; i < s.nwaiters; i++)
    {
      w[i] = (Sw) { &s, s.per_wait[i], { v_rand (&v_rng) } };
      f[i] = dex_scheduler_spawn (v_chance (&v_rng, 60) ? v_pool () : NULL, 0, se_waiter, &w[i], NULL);
    }
  for (guint i = 0; i < ncb; i++) cb[i] = dex_future_finally (dex_semaphore_wait (s.sem), se_cb, &s, NULL);
  v_par_main (s.nposters, se_poster, &s, se_poster);
  /* exactly as many waits complete as there are posts, or all of them */
  target = MIN (total_wait, total_post);
  v_run_until_count (&s.waits_done, target, "as many waits complete as there are posts");
  v_check (g_atomic_int_get (&s.posts_begun) == (int) total_post, "harness", "posts");
  for (int i = 0; i < 20; i++) { g_main_context_iteration (NULL, FALSE); if (v_chance (&v_rng, 10)) g_usleep (50); }
  v_check (g_atomic_int_get (&s.waits_done) == target, "sem-invented", "%d waits done, %u posts, %u waits", s.waits_done, total_post, total_wait);
  v_eval (2);
  /* the rest */
  if (total_post < total_wait)
    {
      guint rest = total_wait - total_post;
      g_atomic_int_add (&s.posts_begun, rest);
      if (v_chance (&v_rng, 50)) dex_semaphore_post_many (s.sem, rest);
      else while (rest--) dex_semaphore_post (s.sem);
      v_run_until_count (&s.waits_done, total_wait, "all waits complete");
      over = 0;
    }
  else over = total_post - total_wait;
  v_run_until_count (&s.waits_ended, s.nwaiters, "waiting fibers end");
  for (guint i = 0; i < s.nwaiters; i++) { v_run_until_settled (f[i], "waiting fiber"); dex_unref (f[i]); }
  for (guint i = 0; i < ncb; i++) { v_run_until_settled (cb[i], "callback of a wait"); dex_unref (cb[i]); }
  /* posts left over complete as many waits to come, and no more */
  if (over)
    {
      guint k = MIN (over, 12) + 1;
      DexFuture *o[16];
      int done0 = s.waits_done;
      if (over >= 12) k = 12;
      for (guint i = 0; i < k; i++) o[i] = dex_semaphore_wait (s.sem);
      for (guint i = 0; i < MIN (over, k); i++)
        { v_run_until_settled (o[i], "a wait for which there is a post left over"); v_check (dex_future_is_resolved (o[i]), "sem-rejected", "a wait was rejected"); }
      if (over < k)
        {
          for (int i = 0; i < 30; i++) { g_main_context_iteration (NULL, FALSE); if (i % 10 == 0) g_usleep (50); }
          v_check (dex_future_is_pending (o[k - 1]), "sem-invented", "%u posts were left over, and one wait more completed", over);
          dex_semaphore_post (s.sem);
          v_run_until_settled (o[k - 1], "the last wait");
        }
      for (guint i = 0; i < k; i++) dex_unref (o[i]);
      (void) done0;
      v_eval (k);
    }
  v_sig (s.sig);
  v_sample ("%u posts by %u threads, %u waits by %u fibers and %u callbacks, %u left over", total_post, s.nposters + 1, total_wait, s.nwaiters, ncb, over);
  dex_unref (s.sem);
  v_expect_live (l0, "semaphore");
}
static void
s_sema_seq (void)
{
  gint64 l0 = v_live ();
  DexSemaphore *sem = dex_semaphore_new ();
  DexFuture *w[400];
  guint nw = 0, steps = 20 + v_below (&v_rng, 150);
  guint64 posts = 0;
  /* counts around the widths of integers too; the sum stays below 2^63 */
  static const guint edge[] = { 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1u << 20, 1u << 24, (1u << 31) - 1, 1u << 31, G_MAXUINT - 1, G_MAXUINT };
  gboolean big = v_chance (&v_rng, 30);
  uint64_t sig = 4;
  for (guint i = 0; i < steps; i++)
    {
      guint done = 0, op = v_below (&v_rng, 3);
      if (op == 0 && nw < 390) w[nw++] = dex_semaphore_wait (sem);
      else if (op == 1) { dex_semaphore_post (sem); posts++; }
      else if (v_chance (&v_rng, 30)) { guint k = big && v_chance (&v_rng, 8) ? edge[v_below (&v_rng, G_N_ELEMENTS (edge))] : v_below (&v_rng, 6); dex_semaphore_post_many (sem, k); posts += k; }
      else if (nw < 380) for (guint k = v_below (&v_rng, 5); k; k--) w[nw++] = dex_semaphore_wait (sem);
      sig = v_hash_add (sig, op);
      if (v_chance (&v_rng, 60))
        {
          gint64 end = g_get_monotonic_time () + 20 * G_USEC_PER_SEC;
          for (;;)
            {
              done = 0;
              for (guint j = 0; j < nw; j++) done += !dex_future_is_pending (w[j]);
              v_check (done <= posts, "sem-invented", "%u of %u waits completed with %" G_GUINT64_FORMAT " posts", done, nw, posts);
              if (done == MIN (posts, nw)) break;
              if (!g_main_context_iteration (NULL, FALSE)) g_usleep (20);
              v_check (g_get_monotonic_time () < end, "sem-lost", "%u of %u waits completed with %" G_GUINT64_FORMAT " posts", done, nw, posts);
            }
          v_eval (1);
        }
      v_event (1);
    }
  if (posts < nw) dex_semaphore_post_many (sem, nw - posts);
  for (guint j = 0; j < nw; j++) { v_run_until_settled (w[j], "wait"); v_check (dex_future_is_resolved (w[j]), "sem-rejected", "a wait was rejected"); dex_unref (w[j]); }
  v_sig (sig);
  v_sample ("%u waits, %" G_GUINT64_FORMAT " posts", nw, posts);
  dex_unref (sem);
  v_expect_live (l0, "semaphore");
}

/* closing, where waits are kept by the semaphore itself (no eventfd read through io_uring) */
typedef struct { DexSemaphore *sem; guint posts[4]; guint n, closer; } SemC;
static void
semc_thread (guint idx, VRng *rng, gpointer data)
{
  SemC *s = data;
  if (idx == s->closer) { v_noise_point (); dex_semaphore_close (s->sem); return; }
  for (guint i = 0; i < s->posts[idx]; )
    {
      v_noise_point ();
      if (v_chance (rng, 50) || s->posts[idx] - i == 1) { dex_semaphore_post (s->sem); i++; }
      else { guint k = 1 + v_below (rng, s->posts[idx] - i); dex_semaphore_post_many (s->sem, k); i += k; }
    }
}
static void
s_sema_close (void)
{
  gint64 l0 = v_live ();
  SemC s = { .sem = dex_semaphore_new () };
  DexFuture *w[40];
  guint nw = 1 + v_below (&v_rng, 39), total = 0, res = 0, closed = 0;
  gboolean race = v_chance (&v_rng, 60);
  uint64_t sig = race;
  for (guint i = 0; i < nw; i++) w[i] = dex_semaphore_wait (s.sem);
  s.n = 1 + v_below (&v_rng, 3);
  for (guint i = 0; i < s.n; i++) total += s.posts[i] = v_below (&v_rng, nw / s.n + 1);
  s.closer = race ? s.n : 99;
  v_par (s.n + race, semc_thread, &s);
  if (!race) dex_semaphore_close (s.sem);
  for (guint i = 0; i < nw; i++)
    {
      v_run_until_settled (w[i], "a wait on a closed semaphore");
      if (dex_future_is_resolved (w[i])) { res++; v_check (race || i < total, "sem-order", "wait %u completed after %u posts, before an earlier one", i, total); }
      else
        {
          GError *e = NULL;
          dex_future_get_value (w[i], &e);
          v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_SEMAPHORE_CLOSED), "sem-error", "a wait on a closed semaphore got %s", e ? e->message : "nothing");
          g_clear_error (&e);
          closed++;
        }
      sig = v_hash_add (sig, dex_future_is_resolved (w[i]));
      dex_unref (w[i]);
    }
  v_check (res <= total && (race || res == total), res > total ? "sem-invented" : "sem-lost", "%u waits completed with %u posts before the close", res, total);
  dex_unref (s.sem);
  v_expect_live (l0, "closed semaphore");
  v_eval (nw + 1); v_event (nw + total); v_sig (sig);
  v_sample ("%u waits, %u posts by %u threads, close %s: %u completed, %u closed", nw, total, s.n, race ? "racing" : "after", res, closed);
}

/* ================================================================ C32: who schedules whom */
typedef struct { DexScheduler *main, *pool, *own; DexPromise *p; GThread *th; gpointer mc; int what, ran; GMainContext *ctx; DexScheduler *sched; DexScheduler *blk; } Who;
static void
who_look (Who *w, const char *where)
{
  DexScheduler *td = dex_scheduler_get_thread_default (), *rtd = dex_scheduler_ref_thread_default ();
  GMainContext *pc;
  v_check (rtd == td, "where-ref", "%s: get and ref give different schedulers", where);
  dex_clear (&rtd);
  v_check (dex_scheduler_get_default () == w->main, "where-default", "%s: another default scheduler", where);
  v_check (dex_thread_pool_scheduler_get_default () == w->pool, "where-pool", "%s: another default pool", where);
  v_check (dex_scheduler_get_main_context (w->main) == g_main_context_default (), "where-context", "%s: the main scheduler has another context", where);
  pc = dex_scheduler_get_main_context (w->pool);
  if (on_driver_thread)
    {
      v_check (td == NULL, "where-thread", "%s: a plain thread has a scheduler", where);
      v_check (pc == g_main_context_default (), "where-context", "%s: outside the pool its context is not the main one", where);
    }
  else if (g_thread_self () == main_thread)
    {
      v_check (td == w->main, "where-thread", "%s: the main thread has another scheduler", where);
      v_check (pc == g_main_context_default (), "where-context", "%s: outside the pool its context is not the main one", where);
      v_check (!w->what || w->what == 1, "wrong-thread", "%s: ran on the main thread", where);
    }
  else
    {
      v_check (on_pool_thread (), "where-thread", "%s: a thread of a pool has scheduler %s", where, td ? DEX_OBJECT_TYPE_NAME (td) : "NULL");
      v_check (dex_scheduler_get_main_context (td) == g_main_context_get_thread_default (), "where-context", "%s: a worker's context is not its thread's", where);
      v_check (pc == g_main_context_get_thread_default (), "where-context", "%s: the pool's context on its thread is not the thread's", where);
      v_check (g_main_context_is_owner (pc), "where-context", "%s: a worker's context is run by another thread", where);
      v_check (w->what != 1, "wrong-thread", "%s: ran on a thread of a pool", where);
    }
  w->th = g_thread_self (); w->ctx = pc; w->sched = td;
  v_eval (6); v_event (1);
}
static void who_item (gpointer d) { Who *w = d; who_look (w, "item"); g_atomic_int_inc (&w->ran); }
static DexFuture *
who_cb (DexFuture *f, gpointer d)
{
  Who *w = d;
  who_look (w, "callback");
  v_check (w->blk == NULL || w->sched == w->blk, "where-block", "a callback runs under another scheduler than its block's");
  g_atomic_int_inc (&w->ran);
  return NULL;
}
static DexFuture *
who_fiber (gpointer d)
{
  Who *w = d;
  DexScheduler *s0;
  DexFuture *b;
  GThread *t0;
  who_look (w, "fiber"); t0 = w->th; s0 = w->sched;
  if (w->p) { g_autoptr (GError) e = NULL; dex_await (dex_ref (w->p), &e); }
  who_look (w, "fiber after waiting");
  v_check (w->th == t0 && w->sched == s0, "fiber-moved", "a fiber resumed on another thread");
  /* a continuation made here belongs here */
  b = dex_future_finally (dex_future_new_true (), who_cb, d, NULL);
  w->blk = s0;
  v_check (dex_block_get_scheduler (DEX_BLOCK (b)) == s0, "where-block", "a block made in a fiber does not use its scheduler");
  dex_await (b, NULL);
  g_atomic_int_inc (&w->ran);
  return dex_future_new_true ();
}
static void
who_thread (guint idx, VRng *rng, gpointer data)
{
  Who *w = data;
  on_driver_thread = 1;
  for (int i = 0; i < 20; i++) who_look (&(Who) { .main = w->main, .pool = w->pool }, "thread");
  on_driver_thread = 0;
}
static void
s_who (void)
{
  enum { N = 12 };
  Who w[N];
  DexFuture *f[N] = { 0 };
  DexScheduler *own = v_chance (&v_rng, 25) ? dex_thread_pool_scheduler_new () : NULL, *pool = v_pool ();
  gint64 l0 = own ? -1 : v_base ();
  guint n = 2 + v_below (&v_rng, N - 1), due = 0, ran = 0;
  guint64 sig = own != NULL;
  main_thread = g_thread_self ();
  v_check (pool == dex_thread_pool_scheduler_get_default (), "where-pool", "another default pool");
  memset (w, 0, sizeof w);
  for (guint i = 0; i < n; i++)
    {
      int kind = v_below (&v_rng, 5);
      DexScheduler *to = v_chance (&v_rng, 40) ? dex_scheduler_get_default () : own && v_chance (&v_rng, 50) ? own : pool;
      w[i].main = dex_scheduler_get_default (); w[i].pool = pool; w[i].own = own;
      w[i].what = to == w[i].main ? 1 : to == pool ? 2 : 3;
      sig = v_hash_add (sig, kind * 4 + w[i].what);
      if (kind == 0) { dex_scheduler_push (to, who_item, &w[i]); due++; }
      else if (kind == 1)
        { /* a block with a scheduler of its own */
          static const DexBlockKind kinds[] = { DEX_BLOCK_KIND_THEN, DEX_BLOCK_KIND_CATCH, DEX_BLOCK_KIND_FINALLY };
          guint k = v_below (&v_rng, 3);
          DexBlockKind bits = kinds[k] | (v_chance (&v_rng, 20) ? DEX_BLOCK_KIND_LOOP : 0);
          w[i].p = dex_promise_new ();
          f[i] = dex_block_new (dex_ref (w[i].p), to, bits, who_cb, &w[i], NULL);
          v_check (dex_block_get_scheduler (DEX_BLOCK (f[i])) == to, "where-block", "a block does not have the scheduler it was made with");
          v_check (dex_block_get_kind (DEX_BLOCK (f[i])) == bits, "block-kind", "a block made with kind %u has kind %u", bits, dex_block_get_kind (DEX_BLOCK (f[i])));
          if (to != w[i].pool && to != own) w[i].blk = to;
          w[i].mc = GUINT_TO_POINTER (k);
          due++;
        }
      else if (kind == 2)
        {
          w[i].what = 1;
          w[i].p = dex_promise_new ();
          f[i] = dex_future_finally (dex_ref (w[i].p), who_cb, &w[i], NULL);
          v_check (dex_block_get_scheduler (DEX_BLOCK (f[i])) == w[i].main && dex_block_get_kind (DEX_BLOCK (f[i])) == DEX_BLOCK_KIND_FINALLY, "where-block", "a block made on the main thread has another scheduler or kind");
          w[i].blk = w[i].main;
          due++;
        }
      else
        {
          if (kind == 3) w[i].p = dex_promise_new ();
          f[i] = dex_scheduler_spawn (to == w[i].main && v_chance (&v_rng, 50) ? NULL : to, 0, who_fiber, &w[i], NULL);
          due += 2;
        }
    }
  v_par (1 + v_below (&v_rng, 2), who_thread, &w[0]);
  for (guint i = 0; i < n; i++)
    if (w[i].p)
      {
        if (f[i] && DEX_IS_BLOCK (f[i]) && (GPOINTER_TO_UINT (w[i].mc) == 1)) dex_promise_reject (w[i].p, g_error_new_literal (G_IO_ERROR, G_IO_ERROR_FAILED, "who"));
        else dex_promise_resolve_int (w[i].p, 1);
      }
  for (guint i = 0; i < n; i++)
    {
      if (f[i]) { v_run_until_settled (f[i], "work of both schedulers"); dex_unref (f[i]); }
      else v_run_until_count (&w[i].ran, 1, "item of both schedulers");
      ran += g_atomic_int_get (&w[i].ran);
      if (w[i].p) dex_unref (w[i].p);
    }
  v_check (ran == due, "item-lost", "%u of %u ran", ran, due);
  who_look (&(Who) { .main = w[0].main, .pool = pool }, "main");
  if (own) { dex_unref (own); }
  else v_expect_live (l0, "work of both schedulers");
  v_sig (sig);
  v_sample ("%u items, callbacks and fibers asked where they are", n);
}

static const VScenario scenarios[] = {
  { "main-push", s_main_push, 100 },
  { "main-wake", s_main_wake, 60 },
  { "pool-once", s_pool_once, 100 },
  { "pool-trickle", s_pool_trickle, 100 },
  { "pool-release", s_pool_release, 20 }, { "pool-cross", s_pool_cross, 20 },
  { "pool-gang", s_pool_gang, 100 },
  { "wsq-seq", s_wsq_seq, 100 },
  { "wsq-steal", s_wsq_steal, 100 },
  { "wsq-pool", s_wsq_pool, 50 },
  { "sema", s_sema, 100 },
  { "sema-seq", s_sema_seq, 100 },
  { "sema-close", s_sema_close, 100 },
  { "who", s_who, 60 },
  { NULL }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
