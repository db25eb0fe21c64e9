/* C14-C16: fibers: awaiting, discarding, stacks */
#include "vout.h"
#include "dex-scheduler-private.h"
#include "dex-stack-private.h"
#include <fcntl.h>
#include <sys/mman.h>

#define CANCELLED (V_OUT_DEXERR + 2 * DEX_ERROR_FIBER_CANCELLED)
#define EXITED (V_OUT_DEXERR + 2 * DEX_ERROR_FIBER_EXITED)
#define DEPFAIL (V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED)

/* ---------------------------------------------------------------- completions by whoever comes first */
typedef struct { DexPromise *p; int out; } Due;
static GMutex due_lock;
static GArray *due;
static _Atomic int due_stop;
static int due_done;

static void
due_add (DexPromise *p, int out)
{
  Due d = { dex_ref (p), out };
  g_mutex_lock (&due_lock);
  if (!due) due = g_array_new (FALSE, FALSE, sizeof (Due));
  g_array_append_val (due, d);
  g_mutex_unlock (&due_lock);
}
static gboolean
due_one (VRng *rng)
{
  Due d;
  guint k;
  g_mutex_lock (&due_lock);
  if (!due || due->len == 0) { g_mutex_unlock (&due_lock); return FALSE; }
  k = v_below (rng, due->len);
  d = g_array_index (due, Due, k);
  g_array_remove_index_fast (due, k);
  g_mutex_unlock (&due_lock);
  v_out_complete (d.p, d.out, v_chance (rng, 50));
  dex_unref (d.p);
  g_atomic_int_inc (&due_done);
  return TRUE;
}
static void
due_thread (guint idx, VRng *rng, gpointer data)
{
  guint idle = 0;
  while (!due_stop)
    {
      if (v_chance (rng, 30)) v_noise_point ();
      if (!due_one (rng)) { if (++idle < 50) g_thread_yield (); else g_usleep (50); } else idle = 0;
    }
  /* what fibers that were cancelled no longer wait for */
  while (due_one (rng)) ;
}
static gboolean due_idle (gpointer rng) { due_one (rng); return !due_stop; }

static int
fresh_out (VRng *rng, guint rejpct)
{
  static _Atomic int seq;
  int n = 20 * (1 + (seq++ % 40000)) + 2 * (int) v_below (rng, 10);
  return v_chance (rng, rejpct) ? n | 1 : n;
}

/* what dex_await() told must be the outcome of f */
static int
await_checked (DexFuture *f, int want, const char *what)
{
  GError *e = NULL;
  gboolean ok = dex_await (dex_ref (f), &e);
  int got;
  v_check (ok == (e == NULL), "await-torn", "%s: dex_await() returned %d with error %s", what, ok, e ? e->message : "none");
  got = ok ? v_out_read (f, what) : v_out_of_error (e, what);
  g_clear_error (&e);
  if (want != V_PENDING)
    v_check (got == want, "await-outcome", "%s: await gave %s, the future settled as %s", what, v_out_str (got), v_out_str (want));
  return got;
}

/* ================================================================ C14: programs */
typedef struct _Prog Prog;
typedef struct { int running, done, spawned, destroyed; int awaits, blocked_awaits; int maxdepth; guint left; uint64_t sig; } Env;
struct _Prog {
  Env *env; VRng rng; guint steps, depth; int step_seen, want; GThread *thread; gboolean pool; guint64 canary; int destroyed, ended; DexFuture *f;
};
static GThread *main_thread;

static void
prog_free (gpointer d)
{
  Prog *p = d;
  v_check (p->ended, "destroy-early", "the data of a fiber was destroyed before its function returned");
  v_check (!p->destroyed, "destroy-twice", "the data of a fiber was destroyed twice");
  p->destroyed = 1;
  g_atomic_int_inc (&p->env->destroyed);
  g_free (p);
}
static DexFuture *prog_run (gpointer data);

static DexFuture *
prog_spawn (Env *env, VRng *rng, guint depth, int *want)
{
  Prog *p = g_new0 (Prog, 1);
  static const gsize sizes[] = { 0, 0, 0, 32768, 65536, 131072, 200000, 262144 };
  p->env = env; p->rng.s = v_rand (rng); p->depth = depth; p->steps = v_below (rng, depth ? 4 : 8);
  p->pool = v_chance (rng, 50); p->canary = v_rand (rng);
  p->want = *want;
  g_atomic_int_inc (&env->spawned);
  if (!p->pool && v_chance (rng, 50)) return dex_scheduler_spawn (NULL, sizes[v_below (rng, 8)], prog_run, p, prog_free);
  return dex_scheduler_spawn (p->pool ? v_pool () : dex_scheduler_get_default (), sizes[v_below (rng, 8)], prog_run, p, prog_free);
}

static DexFuture *keep_cb (DexFuture *f, gpointer d) { return NULL; }

static void __attribute__((noinline))
prog_step (Prog *p, guint s, guint frames)
{
  /* values in registers, in memory of the frame and on the x87/SSE side */
  volatile guint64 arr[24];
  guint64 a = p->canary + s, b = a * 3, c = a ^ 0x55, d = ~a;
  double x = (double) (a & 0xffff) / 3.0, y = x * 2;
  int err = 4000 + (int) s;
  VRng *rng = &p->rng;
  for (int i = 0; i < 24; i++) arr[i] = a + i;
  if (frames) prog_step (p, s + 1000, frames - 1);
  else
    {
      DexFuture *f = NULL;
      int want = V_PENDING, kind = v_below (rng, 9), got;
      gboolean pend;
      const char *what = "promise";
      switch (kind)
        {
        default: case 0: case 1:
          want = fresh_out (rng, 25);
          f = DEX_FUTURE (v_chance (rng, 50) ? dex_promise_new () : dex_promise_new_cancellable ());
          due_add (DEX_PROMISE (f), want);
          break;
        case 2: what = "settled future"; want = fresh_out (rng, 25); f = v_out_static (want); break;
        case 3:
          if (p->depth < 3 && g_atomic_int_get (&p->env->spawned) < 60)
            { what = "fiber"; want = fresh_out (rng, 25); if (v_chance (rng, 10)) want = EXITED; f = prog_spawn (p->env, rng, p->depth + 1, &want); break; }
          G_GNUC_FALLTHROUGH;
        case 4:
          {
            DexPromise *q[3]; int o[3], rej = 0, n = 1 + v_below (rng, 3);
            what = "all()";
            for (int i = 0; i < n; i++) { q[i] = dex_promise_new (); o[i] = fresh_out (rng, 20); rej += o[i] & 1; }
            f = dex_future_allv ((DexFuture **) q, n);
            for (int i = 0; i < n; i++) { due_add (q[i], o[i]); dex_unref (q[i]); }
            want = rej ? DEPFAIL : V_OUT_TRUE;
          }
          break;
        case 5:
          {
            DexPromise *q = dex_promise_new ();
            what = "block";
            want = fresh_out (rng, 25);
            f = dex_future_finally (dex_ref (q), keep_cb, NULL, NULL);
            due_add (q, want); dex_unref (q);
          }
          break;
        case 6: what = "timeout"; f = dex_timeout_new_usec (v_below (rng, 400)); want = V_OUT_DEXERR + 2 * DEX_ERROR_TIMED_OUT; break;
        }
      pend = dex_future_is_pending (f);
      errno = err;
      __atomic_fetch_add (&p->env->awaits, 1, __ATOMIC_RELAXED);
      if (pend) __atomic_fetch_add (&p->env->blocked_awaits, 1, __ATOMIC_RELAXED);
      got = await_checked (f, want, what);
      v_check (got != V_PENDING, "await-pending", "%s: await returned, the future is pending", what);
      v_check (v_out_read (f, what) == want, "await-outcome", "%s: future reads %s after the await, expected %s", what, v_out_str (v_out_read (f, what)), v_out_str (want));
      dex_unref (f);
      v_event (1);
    }
  for (int i = 0; i < 24; i++) if (arr[i] != a + i) v_fail ("fiber-state", "a local array of a fiber changed across an await: [%d] %" G_GINT64_MODIFIER "x, was %" G_GINT64_MODIFIER "x", i, arr[i], a + i);
  v_check (b == a * 3 && c == (a ^ 0x55) && d == ~a && a == p->canary + s && y == x * 2 && x == (double) (a & 0xffff) / 3.0, "fiber-state", "local variables of a fiber changed across an await");
  v_check (g_thread_self () == p->thread, "fiber-thread", "a fiber went on on another thread than the one it started on");
  v_eval (3);
}

static DexFuture *
prog_run (gpointer data)
{
  Prog *p = data;
  int want = p->want;
  p->thread = g_thread_self ();
  v_check (p->pool == (p->thread != main_thread), "fiber-thread", "a fiber for %s runs on %s", p->pool ? "the pool" : "the main scheduler", p->thread == main_thread ? "the main thread" : "another thread");
  v_check ((((gsize) __builtin_frame_address (0)) & 15) == 0, "stack-align", "frame of a fiber at %p", __builtin_frame_address (0));
  for (guint s = 0; s < p->steps; s++)
    {
      prog_step (p, s, v_chance (&p->rng, 30) ? 1 + v_below (&p->rng, 12) : 0);
      v_check (p->step_seen == (int) s, "resumed-twice", "step %u of a fiber done %d times", s, p->step_seen);
      p->step_seen++;
    }
  g_atomic_int_inc (&p->env->done);
  p->ended = 1;
  if (want == EXITED) return NULL;
  if (v_chance (&p->rng, 50)) return v_out_static (want);
  { DexPromise *q = dex_promise_new (); due_add (q, want); return DEX_FUTURE (q); }
}


typedef struct { DexFuture *all; Env *env; const char *what; } ProgMain;
static gboolean progs_done (gpointer d)
{
  ProgMain *m = d;
  return !dex_future_is_pending (m->all) && g_atomic_int_get (&m->env->destroyed) == g_atomic_int_get (&m->env->spawned);
}
static void
prog_main (guint idx, VRng *rng, gpointer data)
{
  if (idx == 100 || !((ProgMain *) data)->all) return;
  v_run_until (progs_done, data, "every fiber started ends");
  due_stop = 1;
}
static void
prog_thread (guint idx, VRng *rng, gpointer data) { due_thread (idx, rng, data); }

static void
s_programs (void)
{
  gint64 l0;
  int box0, obj0, nth = v_below (&v_rng, 3);
  Env *env = g_new0 (Env, 1);
  DexFuture *f[12];
  int want[12], n = 1 + v_below (&v_rng, 12);
  ProgMain pm = { 0 };
  VRng r;
  main_thread = g_thread_self ();
  v_pool ();
  l0 = v_base (); box0 = v_box_live (); obj0 = v_obj_live ();
  due_stop = 0;
  for (int i = 0; i < n; i++) { want[i] = v_chance (&v_rng, 10) ? EXITED : fresh_out (&v_rng, 30); f[i] = prog_spawn (env, &v_rng, 0, &want[i]); }
  pm.all = dex_future_allv (f, n); pm.env = env;
  if (nth == 0)
    {
      r.s = v_rand (&v_rng);
      g_timeout_add_full (G_PRIORITY_DEFAULT, 0, due_idle, &r, NULL);
      v_run_until (progs_done, &pm, "every fiber started ends");
      due_stop = 1;
      v_drain ();
    }
  else v_par_main (nth, prog_thread, &pm, prog_main);
  v_check (env->done == env->spawned && env->destroyed == env->spawned, "fiber-lost", "%d fibers started, %d ran to their end, data of %d destroyed", env->spawned, env->done, env->destroyed);
  for (int i = 0; i < n; i++)
    {
      int o = v_out_read (f[i], "fiber");
      v_check (o == want[i], "fiber-outcome", "a fiber returned %s, its future is %s", v_out_str (want[i]), v_out_str (o));
    }
  v_eval (n + 2);
  v_sigf ("%d %d %d %d", n, env->spawned, env->awaits, env->blocked_awaits);
  v_count ("awaits", env->awaits); v_count ("awaits_that_suspended", env->blocked_awaits); v_count ("fibers", env->spawned);
  v_sample ("%d fibers, %d awaits, %d of them on pending futures, %d completing threads", env->spawned, env->awaits, env->blocked_awaits, nth);
  dex_unref (pm.all);
  for (int i = 0; i < n; i++) dex_unref (f[i]);
  v_expect_live (l0, "fibers");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left: %d boxed, %d objects", v_box_live () - box0, v_obj_live () - obj0);
  g_free (env);
}

/* every runnable fiber gets its turn, and so does the rest of the loop, next to fibers that are always runnable */
typedef struct { DexPromise *ball[2]; _Atomic int stop; int turns[2]; int others, src, want; } Fair;
typedef struct { Fair *f; int me; } FairArg;
static DexFuture *
fair_pong (gpointer data)
{
  FairArg *a = data;
  Fair *f = a->f;
  while (!f->stop)
    {
      DexPromise *mine = f->ball[a->me], *q;
      if (!dex_await (dex_ref (mine), NULL)) break;
      f->turns[a->me]++;
      q = f->ball[a->me]; f->ball[a->me] = dex_promise_new (); dex_unref (q);
      dex_promise_resolve_boolean (f->ball[!a->me], TRUE);
    }
  if (dex_future_is_pending (DEX_FUTURE (f->ball[!a->me]))) dex_promise_resolve_boolean (f->ball[!a->me], TRUE);
  return dex_future_new_true ();
}
static DexFuture *
fair_other (gpointer data)
{
  Fair *f = data;
  GError *e = NULL;
  for (int i = 0; i < 3; i++)
    { v_check (!dex_await (dex_timeout_new_usec (10), &e), "await-outcome", "a timeout resolved"); g_clear_error (&e); }
  g_atomic_int_inc (&f->others);
  return dex_future_new_true ();
}
static gboolean fair_src (gpointer data) { g_atomic_int_inc (&((Fair *) data)->src); return G_SOURCE_REMOVE; }
static void fair_item (gpointer data) { g_atomic_int_inc (&((Fair *) data)->src); }
static gboolean fair_done (gpointer data) { Fair *f = data; return g_atomic_int_get (&f->others) + g_atomic_int_get (&f->src) >= f->want; }
static void
s_fair (void)
{
  gint64 l0;
  Fair *f = g_new0 (Fair, 1);
  FairArg a[2] = { { f, 0 }, { f, 1 } };
  DexFuture *w[32], *all;
  int n = 1 + v_below (&v_rng, 20);
  gboolean pool = v_chance (&v_rng, 30);
  DexScheduler *sc;
  v_pool ();
  sc = pool ? v_pool () : dex_scheduler_get_default ();
  l0 = v_base ();
  if (pool) { f->stop = 1; }
  f->ball[0] = dex_promise_new (); f->ball[1] = dex_promise_new ();
  dex_promise_resolve_boolean (f->ball[0], TRUE);
  w[0] = dex_scheduler_spawn (NULL, 0, fair_pong, &a[0], NULL);
  w[1] = dex_scheduler_spawn (NULL, 0, fair_pong, &a[1], NULL);
  for (int i = 0; i < n; i++) w[2 + i] = dex_scheduler_spawn (sc, 0, fair_other, f, NULL);
  f->want = n;
  if (!pool)
    {
      g_timeout_add_full (G_PRIORITY_DEFAULT, 1, fair_src, f, NULL);
      g_idle_add_full (G_PRIORITY_DEFAULT, fair_src, f, NULL);
      dex_scheduler_push (dex_scheduler_get_default (), fair_item, f);
      f->want += 3;
    }
  v_run_until (fair_done, f, "fibers and sources next to two fibers that are always runnable");
  f->stop = 1;
  all = dex_future_allv (w, n + 2);
  v_run_until_settled (all, "fibers that take turns");
  v_check (abs (f->turns[0] - f->turns[1]) <= 2, "fiber-turns", "two fibers that take turns resumed %d and %d times", f->turns[0], f->turns[1]);
  v_eval (2); v_event (f->turns[0] + f->turns[1] + n);
  v_sigf ("%d %d %d", n, pool, f->turns[0]);
  v_sample ("%d fibers beside a pair that took %d turns", n, f->turns[0] + f->turns[1]);
  dex_unref (all);
  for (int i = 0; i < n + 2; i++) dex_unref (w[i]);
  v_drain ();
  dex_unref (f->ball[0]); dex_unref (f->ball[1]);
  v_expect_live (l0, "fair");
  g_free (f);
}

/* many fibers wait for one future, which a thread completes as they arrive */
typedef struct { DexPromise *p; int want, n, resumed, pool_n; DexFuture *w[400]; } Herd;
static DexFuture *
herd_fiber (gpointer data)
{
  Herd *h = data;
  await_checked (DEX_FUTURE (h->p), h->want, "shared future");
  g_atomic_int_inc (&h->resumed);
  return dex_future_new_true ();
}
static void
herd_thread (guint idx, VRng *rng, gpointer data)
{
  Herd *h = data;
  v_rnd_usleep (rng, 300);
  v_noise_point ();
  v_out_complete (h->p, h->want, TRUE);
}
static void
herd_main (guint idx, VRng *rng, gpointer data)
{
  Herd *h = data;
  for (int i = 0; i < h->n; i++)
    {
      h->w[i] = dex_scheduler_spawn (v_chance (rng, h->pool_n) ? v_pool () : NULL, 0, herd_fiber, h, NULL);
      if (v_chance (rng, 20)) g_main_context_iteration (NULL, FALSE);
    }
}
static DexFuture *crowd_fiber (gpointer p) { return dex_await (dex_ref (p), NULL) ? dex_future_new_true () : NULL; }
static void
s_herd (void)
{
  gint64 l0;
  Herd *h = g_new0 (Herd, 1);
  DexFuture *all, *crowd[300];
  DexPromise *later = dex_promise_new ();
  guint nc = v_chance (&v_rng, 20) ? v_below (&v_rng, 300) : v_below (&v_rng, 6);
  v_pool (); l0 = v_base () + 1;
  /* others stay blocked meanwhile */
  for (guint i = 0; i < nc; i++) crowd[i] = dex_scheduler_spawn (v_chance (&v_rng, 30) ? v_pool () : NULL, 0, crowd_fiber, later, NULL);
  if (v_chance (&v_rng, 50)) v_drain ();
  h->p = dex_promise_new ();
  h->n = 1 + v_below (&v_rng, v_chance (&v_rng, 10) ? 399 : 40); h->want = fresh_out (&v_rng, 30); h->pool_n = v_below (&v_rng, 3) * 50;
  v_par_main (1, herd_thread, h, herd_main);
  all = dex_future_allv (h->w, h->n);
  v_run_until_settled (all, "fibers waiting for one future");
  v_check (h->resumed == h->n, "fiber-lost", "%d of %d fibers resumed", h->resumed, h->n);
  for (guint i = 0; i < nc; i++) v_check (dex_future_is_pending (crowd[i]), "await-early", "a fiber went on although what it awaits is pending");
  dex_promise_resolve_boolean (later, TRUE);
  for (guint i = 0; i < nc; i++)
    {
      v_run_until_settled (crowd[i], "blocked fibers");
      v_check (dex_future_is_resolved (crowd[i]), "await-outcome", "a blocked fiber saw another outcome");
      dex_unref (crowd[i]);
    }
  dex_unref (later);
  l0--;
  v_eval (1); v_event (h->n); v_sigf ("%d %d", h->n, h->pool_n);
  dex_unref (all);
  for (int i = 0; i < h->n; i++) dex_unref (h->w[i]);
  dex_unref (h->p);
  v_expect_live (l0, "herd");
  g_free (h);
}

/* ================================================================ C15 */
typedef struct {
  VRng rng; guint steps; gboolean keep, early;
  _Atomic int begun, gone;      /* a dependent started to leave / the last one has left */
  int left, ndep, started, ended, destroyed, want, cancelled_at, after, cleanup;
  DexFuture *f, *dep[4]; gboolean pool;
  DexPromise *hold;
} Disc;

static void disc_free (gpointer d) { Disc *x = d; v_check (x->ended, "destroy-early", "data destroyed before the fiber ended"); g_atomic_int_inc (&x->destroyed); }
static gboolean disc_rescue (gpointer p) { v_out_complete (p, 20, TRUE); return G_SOURCE_REMOVE; }

static DexFuture *
disc_fiber (gpointer data)
{
  Disc *x = data;
  GThread *th = g_thread_self ();
  x->started++;
  for (guint s = 0; s < x->steps; s++)
    {
      gboolean gone = !x->keep && x->gone, cancelled = x->cancelled_at >= 0;
      int want = fresh_out (&x->rng, 25), got;
      if (v_chance (&x->rng, 25))
        {
          DexFuture *f = v_out_static (want);
          await_checked (f, want, "settled future in a discarded fiber");
          dex_unref (f);
          continue;
        }
      if (gone || cancelled)
        {
          /* nobody completes it: the await must fail at once */
          DexPromise *p = dex_promise_new ();
          guint id = g_timeout_add (4000, disc_rescue, p);
          GSource *src = NULL;
          (void) src;
          got = await_checked (DEX_FUTURE (p), V_PENDING, "await after discard");
          v_check (got == CANCELLED, "not-cancelled", "an await that started after the last dependent of the fiber had left gave %s", v_out_str (got));
          v_check (dex_future_is_pending (DEX_FUTURE (p)) || got == CANCELLED, "not-cancelled", "rescued");
          g_source_remove (id);
          dex_unref (p);
          x->after++;
        }
      else
        {
          DexPromise *p = dex_promise_new ();
          due_add (p, want);
          got = await_checked (DEX_FUTURE (p), V_PENDING, "await");
          dex_unref (p);
          if (got == CANCELLED)
            v_check (!x->keep && x->begun, "cancelled-wanted", "an await failed with fiber-cancelled although %s", x->keep ? "a dependent is left" : "no dependent had started to leave");
          else v_check (got == want, "await-outcome", "await in a fiber being discarded gave %s, expected %s", v_out_str (got), v_out_str (want));
        }
      if (got == CANCELLED && x->cancelled_at < 0) x->cancelled_at = s;
      v_check (g_thread_self () == th, "fiber-thread", "a fiber went on on another thread");
      v_eval (2); v_event (1);
      if (x->cancelled_at >= 0 && x->early && v_chance (&x->rng, 40)) { x->cleanup = 1; break; }
    }
  x->ended = 1;
  return v_out_static (x->want);
}

static DexFuture *
disc_dep (DexFuture *f, VRng *rng, DexPromise *never)
{
  switch (v_below (rng, 5))
    {
    case 0: return dex_future_then (dex_ref (f), keep_cb, NULL, NULL);
    case 1: return dex_future_finally (dex_ref (f), keep_cb, NULL, NULL);
    case 2: return dex_future_first (dex_ref (f), dex_ref (never), NULL);
    case 3: return dex_future_finally (dex_future_finally (dex_ref (f), keep_cb, NULL, NULL), keep_cb, NULL, NULL);
    default: return dex_future_all (dex_ref (f), dex_ref (never), NULL);
    }
}

#define ND 12
typedef struct { Disc d[ND]; int n, threads; } DiscRun;
static void
disc_drop (Disc *x, int j)
{
  x->begun = 1;
  v_noise_point ();
  dex_clear (&x->dep[j]);
  if (g_atomic_int_dec_and_test (&x->left)) x->gone = 1;
}
static void
disc_thread (guint idx, VRng *rng, gpointer data)
{
  DiscRun *r = data;
  if ((int) idx == r->threads) { due_thread (idx, rng, NULL); return; }
  for (int k = 0; k < r->n * 4; k++)
    {
      Disc *x = &r->d[(k / 4 + idx) % r->n];
      int j = k % 4;
      if (v_chance (rng, 30)) v_rnd_usleep (rng, 60);
      if (j < x->ndep && j % r->threads == (int) idx && !(x->keep && j == 0)) disc_drop (x, j);
    }
}
static gboolean disc_all (gpointer data)
{
  DiscRun *r = data;
  for (int i = 0; i < r->n; i++) if (!g_atomic_int_get (&r->d[i].destroyed)) return FALSE;
  return TRUE;
}
static void
disc_main (guint idx, VRng *rng, gpointer data)
{
  v_run_until (disc_all, data, "discarded fibers leave");
  due_stop = 1;
}

static void
s_discard (void)
{
  gint64 l0;
  DiscRun *r = g_new0 (DiscRun, 1);
  DexPromise *never = dex_promise_new ();
  int nc = 0, after = 0;
  uint64_t sig = 1;
  v_pool (); l0 = v_base () + 1;
  due_stop = 0;
  r->n = 1 + v_below (&v_rng, ND); r->threads = 1 + v_below (&v_rng, 2);
  for (int i = 0; i < r->n; i++)
    {
      Disc *x = &r->d[i];
      x->rng.s = v_rand (&v_rng); x->steps = 1 + v_below (&v_rng, 10); x->keep = v_chance (&v_rng, 25); x->early = v_chance (&v_rng, 50);
      x->ndep = 1 + v_below (&v_rng, 4); x->want = fresh_out (&v_rng, 25); x->cancelled_at = -1;
      x->left = x->ndep;
      x->pool = v_chance (&v_rng, 60);
      x->f = dex_scheduler_spawn (x->pool ? v_pool () : NULL, v_chance (&v_rng, 50) ? 0 : 65536, disc_fiber, x, disc_free);
      for (int j = 0; j < x->ndep; j++) x->dep[j] = disc_dep (x->f, &v_rng, never);
    }
  v_par_main (r->threads + 1, disc_thread, r, disc_main);
  for (int i = 0; i < r->n; i++)
    {
      Disc *x = &r->d[i];
      int o = v_out_read (x->f, "discarded fiber");
      v_check (x->started == 1 && x->ended && x->destroyed == 1, "fiber-lost", "a discarded fiber started %d times, ended %d, data destroyed %d times", x->started, x->ended, x->destroyed);
      v_check (o == x->want, "fiber-outcome", "a discarded fiber returned %s, its future is %s", v_out_str (x->want), v_out_str (o));
      nc += x->cancelled_at >= 0; after += x->after;
      sig = v_hash_add (sig, x->cancelled_at * 4 + x->keep * 2 + x->pool);
      for (int j = 0; j < x->ndep; j++) dex_clear (&x->dep[j]);
      dex_clear (&x->f);
      v_eval (2);
    }
  v_sig (sig);
  v_count ("fibers_cancelled", nc); v_count ("awaits_after_discard", after); v_count ("fibers", r->n);
  v_sample ("%d fibers on %d discarding threads, %d saw it, %d awaits failed after the fact", r->n, r->threads, nc, after);
  v_expect_live (l0, "discarded fibers");
  dex_unref (never);
  g_free (r);
}

/* one thread, exactly one expected result for every await */
typedef struct { DexPromise *cur; int want, step, steps, waiting, ended, destroyed; gboolean discarded, expect_cancel; DexFuture *f, *dep[3]; int nd; VRng rng; int st_left; } Ds;
static DexFuture *
ds_fiber (gpointer data)
{
  Ds *x = data;
  for (x->step = 0; x->step < x->steps; x->step++)
    {
      gboolean expect = x->discarded;
      int got;
      x->cur = dex_promise_new ();
      x->want = fresh_out (&x->rng, 25);
      x->waiting = 1;
      got = await_checked (DEX_FUTURE (x->cur), V_PENDING, "await");
      x->waiting = 0;
      if (expect) v_check (got == CANCELLED, "not-cancelled", "step %d: an await after the discard gave %s", x->step, v_out_str (got));
      else v_check (got == x->want, got == CANCELLED ? "cancelled-wanted" : "await-outcome", "step %d: an await that began before any discard gave %s, the future settled as %s", x->step, v_out_str (got), v_out_str (x->want));
      dex_clear (&x->cur);
      v_eval (1); v_event (1);
    }
  x->ended = 1;
  return v_out_static (20);
}
static void ds_free (gpointer d) { ((Ds *) d)->destroyed++; }
static void
s_discard_seq (void)
{
  gint64 l0 = v_live ();
  Ds *x = g_new0 (Ds, 1);
  DexPromise *never = dex_promise_new ();
  uint64_t sig = 3;
  int iters = 0;
  x->rng.s = v_rand (&v_rng); x->steps = 1 + v_below (&v_rng, 8); x->nd = v_below (&v_rng, 4);
  x->f = dex_scheduler_spawn (NULL, 0, ds_fiber, x, ds_free);
  for (int j = 0; j < x->nd; j++) x->dep[j] = disc_dep (x->f, &v_rng, never);
  x->st_left = x->nd;
  while (!x->destroyed)
    {
      guint op = v_below (&v_rng, 4);
      if (op == 0 && x->st_left)
        {
          int j; do j = v_below (&v_rng, 3); while (j >= x->nd || !x->dep[j]);
          dex_clear (&x->dep[j]);
          if (--x->st_left == 0 && dex_future_is_pending (x->f)) x->discarded = TRUE;
          sig = v_hash_add (sig, 10 + x->step);
        }
      else if (op == 1 && v_chance (&v_rng, 30))
        {
          int j;
          for (j = 0; j < x->nd && x->dep[j]; j++) ;
          if (j < x->nd && !x->discarded && x->st_left) { x->dep[j] = disc_dep (x->f, &v_rng, never); x->st_left++; sig = v_hash_add (sig, 5); }
        }
      else if (op == 2 && x->waiting && x->cur && dex_future_is_pending (DEX_FUTURE (x->cur)))
        { v_out_complete (x->cur, x->want, TRUE); sig = v_hash_add (sig, 20 + x->step); }
      else g_main_context_iteration (NULL, FALSE);
      if (++iters > 20000) v_fail ("stall", "a fiber does not end: step %d of %d, %s", x->step, x->steps, x->waiting ? "suspended" : "not suspended");
    }
  v_check (x->ended && x->destroyed == 1, "fiber-lost", "ended %d destroyed %d", x->ended, x->destroyed);
  v_check (v_out_read (x->f, "fiber") == 20, "fiber-outcome", "fiber settled as %s", v_out_str (v_out_read (x->f, "fiber")));
  v_sig (sig);
  for (int j = 0; j < 3; j++) dex_clear (&x->dep[j]);
  dex_unref (x->f); dex_unref (never);
  v_expect_live (l0, "discarded fiber");
  g_free (x);
}

/* ================================================================ C16 */
static gboolean
page_accessible (gpointer p)
{
  /* a pipe really reads the byte */
  int pfd[2]; gboolean ok;
  if (pipe (pfd) != 0) return TRUE;
  ok = write (pfd[1], p, 1) == 1;
  close (pfd[0]); close (pfd[1]);
  return ok;
}

/* the mapping that holds addr, as the kernel reports it */
typedef struct { gsize lo, hi, below_lo, below_hi; gboolean rw, below_none; } Map;
static gboolean
find_map (gsize addr, Map *m)
{
  FILE *f = fopen ("/proc/self/maps", "re");
  char line[512];
  gsize plo = 0, phi = 0; gboolean pnone = FALSE;
  if (!f) return FALSE;
  while (fgets (line, sizeof line, f))
    {
      gsize lo, hi; char perm[8];
      if (sscanf (line, "%zx-%zx %7s", &lo, &hi, perm) != 3) continue;
      if (addr >= lo && addr < hi)
        {
          *m = (Map) { lo, hi, plo, phi, perm[0] == 'r' && perm[1] == 'w', pnone };
          fclose (f);
          return TRUE;
        }
      plo = lo; phi = hi; pnone = perm[0] == '-' && perm[1] == '-';
    }
  fclose (f);
  return FALSE;
}
static int
count_guards (void)
{
  /* guard pages of exactly one page, as the stacks have */
  FILE *f = fopen ("/proc/self/maps", "re");
  char line[512]; int n = 0;
  if (!f) return 0;
  while (fgets (line, sizeof line, f))
    { gsize lo, hi; char perm[8]; if (sscanf (line, "%zx-%zx %7s", &lo, &hi, perm) == 3 && !strncmp (perm, "---", 3) && hi - lo == 4096) n++; }
  fclose (f);
  return n;
}

static void
s_stack_api (void)
{
  DexStack *s[24];
  gsize size[24], page = sysconf (_SC_PAGESIZE);
  int n = 1 + v_below (&v_rng, 24);
  for (int i = 0; i < n; i++)
    {
      volatile guint8 *p;
      guint k = v_below (&v_rng, 6);
      size[i] = k == 0 ? 0 : k == 1 ? 1 + v_below (&v_rng, 20000) : k == 2 ? page * (1 + v_below (&v_rng, 64)) : k == 3 ? page * (8 + v_below (&v_rng, 64)) - 1 + v_below (&v_rng, 3) : k == 4 ? 1 + v_below (&v_rng, 2 << 20) : 65536;
      s[i] = dex_stack_new (size[i]);
      v_check (s[i]->size >= size[i], "stack-size", "asked for a stack of %zu, got %zu", size[i], s[i]->size);
      v_check (((gsize) s[i]->ptr & 15) == 0 && (((gsize) s[i]->ptr + s[i]->size) & 15) == 0, "stack-align", "stack %p + %zu is not aligned", s[i]->ptr, s[i]->size);
      p = s[i]->ptr;
      for (gsize o = 0; o < s[i]->size; o += page / 2)
        { if (o % page == 0) v_check (page_accessible ((guint8 *) p + o), "stack-size", "stack of %zu not writable at %zu", s[i]->size, o); p[o] = (guint8) (i + 1); }
      v_check (page_accessible ((guint8 *) p + s[i]->size - 1), "stack-size", "last byte of a stack of %zu not accessible", s[i]->size);
      p[s[i]->size - 1] = (guint8) (i + 1); p[s[i]->size - 2] = (guint8) (i + 1);
      v_check (!page_accessible ((guint8 *) s[i]->ptr - 1), "stack-guard", "the byte below a stack of %zu (asked for %zu) is accessible", s[i]->size, size[i]);
      v_check (!page_accessible ((guint8 *) s[i]->ptr - page), "stack-guard", "the guard below a stack of %zu is smaller than a page", s[i]->size);
      for (int j = 0; j < i; j++)
        {
          gsize a = (gsize) s[i]->ptr - page, b = (gsize) s[j]->ptr - page;
          v_check (a + s[i]->size + page <= b || b + s[j]->size + page <= a, "stack-overlap", "stacks %d and %d overlap", i, j);
        }
      v_eval (5); v_event (1);
    }
  for (int i = 0; i < n; i++)
    {
      volatile guint8 *p = s[i]->ptr;
      for (gsize o = 0; o < s[i]->size; o += page / 2) v_check (p[o] == (guint8) (i + 1), "stack-overlap", "a stack changed at %zu while another was written", o);
    }
  v_sigf ("%d %zu %zu", n, size[0], size[n - 1]);
  v_sample ("%d stacks, first asked for %zu and got %zu", n, size[0], s[0]->size);
  {
    int g0 = count_guards (), g1;
    guint8 *lo[24]; gsize len[24];
    for (int i = 0; i < n; i++) { lo[i] = s[i]->ptr; len[i] = s[i]->size; }
    for (int i = 0; i < n; i++) dex_stack_free (s[i]);
    for (int i = 0; i < n; i++)
      v_check (!page_accessible (lo[i]) && !page_accessible (lo[i] + len[i] / 2) && !page_accessible (lo[i] + len[i] - 1), "stack-leak", "memory of a freed stack of %zu is still mapped", len[i]);
    g1 = count_guards ();
    v_check (g0 - g1 == n, "stack-leak", "%d stacks freed, %d guard pages went away", n, g0 - g1);
  }
}

/* a pool against a model; threads share it */
typedef struct { DexStackPool *pool; int held, max; _Atomic int fresh; GMutex m; GHashTable *out; } Sp;
static void
sp_thread (guint idx, VRng *rng, gpointer data)
{
  Sp *sp = data;
  DexStack *mine[16]; int n = 0;
  for (int k = 0; k < 60; k++)
    {
      if (n == 0 || (n < 16 && v_chance (rng, 50)))
        {
          DexStack *s = dex_stack_pool_acquire (sp->pool);
          gboolean dup;
          v_check (s != NULL && s->ptr != NULL, "stack-none", "pool gave no stack");
          g_mutex_lock (&sp->m);
          dup = !g_hash_table_add (sp->out, s->ptr);
          g_mutex_unlock (&sp->m);
          v_check (!dup, "stack-shared", "pool handed out a stack that is in use");
          v_check (s->size >= sp->pool->stack_size, "stack-size", "pool of %zu gave a stack of %zu", sp->pool->stack_size, s->size);
          memset (s->ptr, 0x40 + idx, 64); memset ((guint8 *) s->ptr + s->size - 64, 0x40 + idx, 64);
          mine[n++] = s;
        }
      else
        {
          int i = v_below (rng, n);
          DexStack *s = mine[i];
          guint8 *e = (guint8 *) s->ptr + s->size - 1;
          v_check (((guint8 *) s->ptr)[5] == 0x40 + idx && *e == 0x40 + idx, "stack-shared", "a stack in use changed");
          mine[i] = mine[--n];
          g_mutex_lock (&sp->m); g_hash_table_remove (sp->out, s->ptr); g_mutex_unlock (&sp->m);
          dex_stack_pool_release (sp->pool, s);
        }
      v_event (1);
    }
  while (n)
    {
      DexStack *s = mine[--n];
      g_mutex_lock (&sp->m); g_hash_table_remove (sp->out, s->ptr); g_mutex_unlock (&sp->m);
      dex_stack_pool_release (sp->pool, s);
    }
  v_eval (60);
}
static void
s_stack_pool (void)
{
  Sp sp = { 0 };
  int mn = v_below (&v_rng, 4), mx = mn + v_below (&v_rng, 6), g0 = count_guards (), kept;
  guint nt = 1 + v_below (&v_rng, 3);
  g_mutex_init (&sp.m); sp.out = g_hash_table_new (NULL, NULL);
  sp.pool = dex_stack_pool_new (v_chance (&v_rng, 30) ? 0 : 4096 * (16 + v_below (&v_rng, 32)), mn, mx);
  sp.pool->mark_unused = v_chance (&v_rng, 30);
  v_check (count_guards () - g0 >= mn, "stack-pool", "a pool that should keep %d stacks starts with %d", mn, count_guards () - g0);
  v_par (nt, sp_thread, &sp);
  kept = count_guards () - g0;
  v_check (kept <= mx + 1 + (int) nt /* stacks of the threads just joined */, "stack-pool-unbounded", "a pool that should keep at most %d stacks keeps %d", mx, kept);
  dex_stack_pool_free (sp.pool);
  v_check (count_guards () - g0 <= (int) nt, "stack-leak", "%d stacks left after the pool was freed", count_guards () - g0);
  v_eval (3); v_sigf ("%d %d %u %d", mn, mx, nt, kept);
  v_sample ("pool keeping %d to %d, %u threads, %d kept at the end", mn, mx, nt, kept);
  g_hash_table_unref (sp.out); g_mutex_clear (&sp.m);
}

/* fibers that use all the stack they asked for */
#define SF 40
typedef struct { gsize want; VRng rng; gsize lo, hi; int idx; guint8 pat; int destroyed, fill; } Sf;
static GMutex sf_lock;
static struct { gsize lo, hi; } sf_live[SF * 2];
static gsize default_size = 0;
static void
sf_free (gpointer d)
{
  Sf *x = d;
  g_mutex_lock (&sf_lock); sf_live[x->idx].lo = 0; g_mutex_unlock (&sf_lock);
  g_atomic_int_inc (&x->destroyed);
}
static void __attribute__((noinline, no_sanitize("address", "undefined")))
sf_deep (Sf *x, gsize bottom, guint awaits)
{
  volatile guint8 pad[1500];
  gsize here = (gsize) &pad[0];
  for (gsize i = 0; i < sizeof pad; i++) pad[i] = (guint8) (x->pat + i);
  if (here > bottom + 16384) sf_deep (x, bottom, awaits);
  else
    while (awaits--)
      {
        DexPromise *p = dex_promise_new ();
        due_add (p, 20);
        v_check (dex_await (DEX_FUTURE (p), NULL), "await-outcome", "await failed");
      }
  for (gsize i = 0; i < sizeof pad; i++)
    if (pad[i] != (guint8) (x->pat + i)) v_fail ("stack-overlap", "stack contents of a fiber changed under it (asked for %zu)", x->want);
}
static DexFuture *
sf_fiber (gpointer data)
{
  Sf *x = data;
  gsize me = (gsize) __builtin_frame_address (0);
  Map m = { 0 };
  v_check ((me & 15) == 0, "stack-align", "frame at %zx", me);
  v_check (find_map (me, &m) && m.rw, "stack-map", "the stack of a fiber is not a writable mapping");
  v_check (m.below_none && m.below_hi == m.lo, "stack-guard", "no inaccessible page right below the stack of a fiber (asked for %zu)", x->want);
  /* what lies between the guard and the first frame is what the fiber may use */
  v_check (me - m.lo + 2048 >= x->want, "stack-size", "asked for a stack of %zu, %zu bytes usable", x->want, me - m.lo);
  if (x->want == 0)
    {
      if (default_size == 0) default_size = me - m.lo;
      v_check (me - m.lo + 2048 >= default_size, "stack-size", "a stack of the default size has %zu bytes, earlier ones had %zu", me - m.lo, default_size);
    }
  v_check (!page_accessible ((gpointer) (m.lo - 1)), "stack-guard", "the page below the stack of a fiber is accessible");
  x->lo = m.lo; x->hi = me;
  g_mutex_lock (&sf_lock);
  for (int i = 0; i < SF * 2; i++)
    if (sf_live[i].lo && i != x->idx) v_check (x->hi <= sf_live[i].lo || sf_live[i].hi <= x->lo, "stack-shared", "two live fibers share a stack");
  sf_live[x->idx].lo = x->lo; sf_live[x->idx].hi = x->hi;
  g_mutex_unlock (&sf_lock);
  v_eval (5); v_event (1);
  sf_deep (x, m.lo, v_below (&x->rng, 4));
  return dex_future_new_true ();
}
static void
sf_body (int n, int rounds, guint poolpct, const char *what)
{
  gint64 l0;
  static gsize sizes[] = { 0, 0, 0, 32768, 40000, 65536, 65537, 98304, 131072, 131073, 134000, 135168, 138000, 200000, 262144, 500000 };
  int g0 = -1, g1;
  VRng r;
  v_pool (); l0 = v_base ();
  due_stop = 0;
  r.s = v_rand (&v_rng);
  g_timeout_add_full (G_PRIORITY_DEFAULT, 0, due_idle, &r, NULL);
  for (int k = 0; k < rounds; k++)
    {
      Sf *x = g_new0 (Sf, n);
      DexFuture *w[SF], *all;
      uint64_t sig = n;
      for (int i = 0; i < n; i++)
        {
          x[i].want = sizes[v_below (&v_rng, G_N_ELEMENTS (sizes))]; x[i].rng.s = v_rand (&v_rng); x[i].pat = v_rand (&v_rng); x[i].idx = i;
          sig = v_hash_add (sig, x[i].want);
          w[i] = dex_scheduler_spawn (v_chance (&v_rng, poolpct) ? v_pool () : NULL, x[i].want, sf_fiber, &x[i], sf_free);
        }
      all = dex_future_allv (w, n);
      v_run_until_settled (all, what);
      for (int i = 0; i < n; i++) v_run_until_count (&x[i].destroyed, 1, "data of a fiber destroyed");
      dex_unref (all);
      for (int i = 0; i < n; i++) dex_unref (w[i]);
      v_expect_live (l0, what);
      g_free (x);
      if (k == 0) g0 = count_guards ();
      v_sig (sig);
    }
  g1 = count_guards ();
  /* one set of kept stacks per scheduler at most, whatever ran */
  v_check (g1 <= g0 + 17 * 9, "stack-pool-unbounded", "%d guard pages after the first fibers, %d after %d more", g0, g1, n * (rounds - 1));
  if (rounds > 20) v_check (g1 <= g0 + rounds / 2, "stack-leak", "%d guard pages after the first of %d rounds of fibers, %d at the end", g0, rounds, g1);
  due_stop = 1;
  v_drain ();
  v_sample ("%d x %d fibers, %d guard pages before, %d after", rounds, n, g0, g1);
}
static void s_stack_fibers (void) { sf_body (1 + v_below (&v_rng, SF), 1, v_below (&v_rng, 3) * 50, "fibers with stacks of many sizes"); }
static void s_stack_churn (void) { sf_body (SF, 60, 50, "fibers one after another"); }

static const VScenario scenarios[] = {
  { "programs", s_programs, 100 },
  { "fair", s_fair, 20 },
  { "herd", s_herd, 50 },
  { "discard", s_discard, 100 },
  { "discard-seq", s_discard_seq, 200 },
  { "stack-api", s_stack_api, 50 },
  { "stack-pool", s_stack_pool, 50 },
  { "stack-fibers", s_stack_fibers, 100 },
  { "stack-churn", s_stack_churn, 2 },
  { NULL }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
