/* C22-C24: timeouts, UNIX signals, cancellables */
// WRAP: g_timeout_source_new g_unix_signal_source_new
#include "vout.h"
#include <glib-unix.h>
#include <signal.h>
#include <limits.h>

#define TIMEDOUT (V_OUT_DEXERR + 2 * DEX_ERROR_TIMED_OUT)
#define CANCELLED (V_OUT_IOERR + 2 * G_IO_ERROR_CANCELLED)

/* ---------------------------------------------------------------- sources of the library that exist */
static int src_live;
static _Atomic int src_count_on;
static void src_disposed (GSource *s) { g_atomic_int_add (&src_live, -1); }
static GSource *src_count (GSource *s) { if (src_count_on) { g_atomic_int_inc (&src_live); g_source_set_dispose_function (s, src_disposed); } return s; }
GSource *__real_g_timeout_source_new (guint ms);
GSource *__wrap_g_timeout_source_new (guint ms) { return src_count (__real_g_timeout_source_new (ms)); }
GSource *__real_g_unix_signal_source_new (gint n);
GSource *__wrap_g_unix_signal_source_new (gint n) { return src_count (__real_g_unix_signal_source_new (n)); }
static gboolean src_gone (gpointer d) { return g_atomic_int_get (&src_live) == 0; }
/* helpers of the monitor make timeout sources as well: counted only where the library is called */
#define COUNTED(x) ({ src_count_on = 1; __auto_type _r = (x); src_count_on = 0; _r; })

static DexFuture *told_cb (DexFuture *f, gpointer data);

/* ================================================================ C22, one loop */
typedef struct { DexFuture *f, *tell; gint64 deadline, slack /* it may be set to that much later */; int told; gint64 at; gboolean left, held, dead; guint round; int out; GArray *order; int id; } To;
static guint to_round;
static DexFuture *
told_cb (DexFuture *f, gpointer data)
{
  To *t = data;
  t->at = g_get_monotonic_time ();
  v_check (++t->told == 1, "timeout-twice", "a timeout was rejected twice");
  t->out = v_out_read (f, "timeout");
  t->round = to_round;
  v_check (t->out == TIMEDOUT, "timeout-outcome", "a timeout ended with %s", v_out_str (t->out));
  v_check (t->at >= t->deadline, "timeout-early", "a timeout was rejected %" G_GINT64_FORMAT "us before its deadline", t->deadline - t->at);
  v_check (!t->dead, "timeout-dead", "a timeout was rejected after its last dependent had left");
  return dex_ref (f);
}
static void
to_new (To *t, VRng *rng)
{
  gint64 d = v_chance (rng, 20) ? 0 : v_below (rng, v_chance (rng, 30) ? 300 : 12000), now, t0 = g_get_monotonic_time ();
  memset (t, 0, sizeof *t);
  switch (v_below (rng, 4))
    {
    case 0: now = g_get_monotonic_time (); t->f = COUNTED (dex_timeout_new_deadline (t->deadline = now + d - (v_chance (rng, 10) ? 1000000 : 0))); break;
    case 1: t->deadline = g_get_monotonic_time () + d / 1000 * 1000; t->f = COUNTED (dex_timeout_new_msec (d / 1000)); break;
    case 2: t->deadline = g_get_monotonic_time () + d; t->f = COUNTED (dex_timeout_new_usec (d)); break;
    default: t->deadline = g_get_monotonic_time () + 3 * G_USEC_PER_SEC; t->f = COUNTED (dex_timeout_new_seconds (3)); break;
    }
  t->slack = g_get_monotonic_time () - t0;
  v_check (dex_future_is_pending (t->f), "timeout-early", "a new timeout is not pending");
  t->tell = dex_future_finally (dex_ref (t->f), told_cb, t, NULL);
}
static gboolean never_cb (gpointer d) { return G_SOURCE_CONTINUE; }
static void
s_timeouts (void)
{
  gint64 l0;
  guint n = 1 + v_below (&v_rng, v_chance (&v_rng, 20) ? 80 : 12), fired = 0, rounds = 0;
  To *t = g_new0 (To, n);
  gint64 start = g_get_monotonic_time ();
  uint64_t sig = 0;
  guint tick;
  v_pool (); l0 = v_base ();
  src_live = 0;
  for (guint i = 0; i < n; i++) to_new (&t[i], &v_rng);
  tick = g_timeout_add (1, never_cb, NULL);
  for (;;)
    {
      gint64 t0;
      gboolean any = FALSE, left = FALSE;
      guint k = v_below (&v_rng, n);
      /* something happens to one of them */
      if (t[k].f && !t[k].told && v_chance (&v_rng, 40))
        switch (v_below (&v_rng, 4))
          {
          case 0: case 1:
            t[k].deadline = g_get_monotonic_time () + (v_chance (&v_rng, 70) ? v_below (&v_rng, 9000) : -(gint64) v_below (&v_rng, 9000));
            if (t[k].tell != NULL) dex_timeout_postpone_until (DEX_TIMEOUT (t[k].f), t[k].deadline);
            break;
          case 2:
            /* its dependent leaves: it is discarded, and stays as it is */
            dex_clear (&t[k].tell); t[k].dead = TRUE;
            break;
          default:
            dex_clear (&t[k].tell); dex_clear (&t[k].f); t[k].dead = TRUE;
          }
      for (guint i = 0; i < n; i++) if (t[i].deadline > start + 2 * G_USEC_PER_SEC && t[i].tell && !t[i].told && t[i].f)
        {
          /* never as long as that: brought forward, as postponing to an earlier time */
          t[i].deadline = start + v_below (&v_rng, 8000);
          dex_timeout_postpone_until (DEX_TIMEOUT (t[i].f), t[i].deadline);
        }
      if (v_chance (&v_rng, 5)) v_rnd_usleep (&v_rng, 3000);
      if (v_chance (&v_rng, 10)) v_noise_point ();
      to_round = ++rounds;
      t0 = g_get_monotonic_time ();
      g_main_context_iteration (NULL, v_chance (&v_rng, 50));
      /* those that were rejected in this round; their callbacks may run in a later one */
      for (guint i = 0; i < n; i++)
        if (t[i].f && !t[i].held && !dex_future_is_pending (t[i].f)) { any = t[i].held = TRUE; fired++; sig = v_hash_add (sig, i); }
      for (guint i = 0; i < n; i++)
        {
          if (any && t[i].f && t[i].tell && !t[i].held && t[i].deadline + t[i].slack <= t0)
            v_fail ("timeout-order", "a timeout with a later deadline was rejected, one that was due %" G_GINT64_FORMAT "us before the round began was not", t0 - t[i].deadline);
          if (t[i].f && t[i].tell && !t[i].told)
            {
              left = TRUE;
              if (t0 - t[i].deadline > 10 * G_USEC_PER_SEC) v_fail ("timeout-lost", "a timeout did not happen within 10s of its deadline");
            }
        }
      if (!left) break;
    }
  for (guint i = 0; i < n; i++)
    {
      if (t[i].f)
        {
          v_check (dex_future_is_pending (t[i].f) == !t[i].told, "timeout-outcome", "told %d times, but status %d", t[i].told, dex_future_get_status (t[i].f));
          if (t[i].told) { dex_timeout_postpone_until (DEX_TIMEOUT (t[i].f), g_get_monotonic_time ()); v_eval (1); }
        }
      v_check (t[i].f == NULL || t[i].dead || t[i].told == 1, "timeout-lost", "a timeout happened %d times", t[i].told);
    }
  v_drain ();
  g_source_remove (tick);
  for (guint i = 0; i < n; i++) { dex_clear (&t[i].tell); dex_clear (&t[i].f); }
  v_sig (sig);
  v_eval (n * 3); v_event (fired);
  v_sample ("%u timeouts, %u of them happened, in %u rounds", n, fired, rounds);
  v_expect_live (l0, "timeouts");
  v_check (src_gone (NULL), "source-left", "%d sources are left of released timeouts", src_live);
  g_free (t);
}

/* deadlines at the edges */
static void
s_edges (void)
{
  static const gint64 far[] = { G_MAXINT64, G_MAXINT64 - 1, G_MAXINT64 / 2, G_MAXINT64 / 1000, (gint64) G_MAXINT * 1000, (gint64) G_MAXUINT * 1000, (gint64) 3600 * G_USEC_PER_SEC };
  static const gint64 past[] = { 0, 1, -2, -1000, G_MININT64 / 2 };
  gint64 l0;
  v_pool (); l0 = v_base ();
  src_live = 0;
  for (guint k = 0; k < 12; k++)
    {
      gint64 x = far[v_below (&v_rng, G_N_ELEMENTS (far))];
      int how = v_below (&v_rng, 6);
      gboolean late = TRUE;
      DexFuture *f, *g;
      To t = { 0 };
      switch (how)
        {
        case 0: f = dex_timeout_new_deadline (MAX (x, g_get_monotonic_time () + 1000000)); break;
        case 1: f = dex_timeout_new_usec (x); break;
        case 2: f = dex_timeout_new_msec (G_MAXINT - v_below (&v_rng, 3)); break;
        case 3: f = dex_timeout_new_seconds (G_MAXINT - v_below (&v_rng, 3)); break;
        case 4:
          late = FALSE;
          switch (v_below (&v_rng, 4))
            {
            case 0: f = dex_timeout_new_deadline (past[v_below (&v_rng, 5)]); break;
            case 1: f = dex_timeout_new_usec (-5 - (gint64) v_below (&v_rng, 1000)); break;
            case 2: f = dex_timeout_new_msec (v_chance (&v_rng, 50) ? G_MININT : -1); break;
            default: f = dex_timeout_new_seconds (v_chance (&v_rng, 50) ? -G_MAXINT : -1); break;
            }
          break;
        default:
          /* far, then near */
          f = dex_timeout_new_usec (x);
          t.deadline = g_get_monotonic_time () + 500;
          dex_timeout_postpone_until (DEX_TIMEOUT (f), t.deadline);
          late = FALSE;
        }
      g = dex_future_finally (dex_ref (f), told_cb, &t, NULL);
      if (late)
        {
          if (v_chance (&v_rng, 50)) g_usleep (1200);
          v_drain ();
          v_check (dex_future_is_pending (f), "timeout-early", "a timeout in the far future (%" G_GINT64_FORMAT ", way %d) was rejected at once", x, how);
          t.dead = TRUE;
        }
      else v_block_until_settled (g, "a timeout in the past");
      dex_unref (g); dex_unref (f);
      v_sigf ("%d %d", how, late);
      v_eval (1); v_event (1);
    }
  v_expect_live (l0, "timeouts");
}

/* ================================================================ C22, several threads */
typedef struct { DexFuture *f; DexFuture *dep[3]; _Atomic gint64 deadline; _Atomic int moving, told; int threads; gboolean pool; gint64 made; } Tr;
typedef struct { Tr *t; guint n, nt; DexPromise *never; } TrRun;
static DexFuture *
tr_told (DexFuture *f, gpointer data)
{
  Tr *t = data;
  gint64 now = g_get_monotonic_time (), d = t->deadline;
  int o = v_out_read (f, "timeout");
  v_check (o == TIMEDOUT, "timeout-outcome", "a timeout ended with %s", v_out_str (o));
  v_check (now >= d || t->moving, "timeout-early", "a timeout was rejected %" G_GINT64_FORMAT "us before its deadline", d - now);
  t->told++;
  return dex_ref (f);
}
static void
tr_postpone (Tr *t, VRng *rng)
{
  gint64 old = t->deadline, now = g_get_monotonic_time (), d = now + v_below (rng, 3000);
  if (t->pool) return;
  t->moving = 1;
  dex_timeout_postpone_until (DEX_TIMEOUT (t->f), d);
  now = g_get_monotonic_time ();
  /* moved while neither time had come: from here on the new one holds */
  t->deadline = d < old ? d : now < old ? d : MIN (old, d);
  t->moving = 0;
}
static void
tr_thread (guint idx, VRng *rng, gpointer data)
{
  TrRun *r = data;
  for (guint k = 0; k < r->n * 3; k++)
    {
      guint i = (k + idx * 3) / 3 % r->n;
      Tr *t = &r->t[i];
      if (v_chance (rng, 30)) v_rnd_usleep (rng, 300);
      if (i % r->nt == idx && t->f && v_chance (rng, 50)) tr_postpone (t, rng);
      if ((k % 3) % r->nt == idx && t->dep[k % 3] && v_chance (rng, 60)) dex_clear (&t->dep[k % 3]);
      /* new ones, soon gone */
      if (v_chance (rng, 10))
        {
          DexFuture *f = dex_timeout_new_usec (v_below (rng, 300)), *g = dex_future_first (f, dex_ref (r->never), NULL);
          if (v_chance (rng, 50)) v_rnd_usleep (rng, 400);
          dex_unref (g);
        }
    }
}
static DexFuture *
tr_fiber (gpointer data)
{
  Tr *t = data;
  GError *e = NULL;
  gint64 d = g_get_monotonic_time () + t->deadline, now;
  v_check (!dex_await (dex_timeout_new_deadline (d), &e), "timeout-outcome", "a timeout resolved");
  now = g_get_monotonic_time ();
  v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_TIMED_OUT) || g_error_matches (e, DEX_ERROR, DEX_ERROR_FIBER_CANCELLED), "timeout-outcome", "a timeout gave '%s'", e->message);
  if (e->code == DEX_ERROR_TIMED_OUT) v_check (now >= d, "timeout-early", "a fiber went on %" G_GINT64_FORMAT "us before the deadline it awaited", d - now);
  g_clear_error (&e);
  t->told++;
  return dex_future_new_true ();
}
static gboolean
tr_over (gpointer data)
{
  TrRun *r = data;
  for (guint i = 0; i < r->n; i++) if (r->t[i].pool && dex_future_is_pending (r->t[i].f)) return FALSE;
  return TRUE;
}
static void
s_timeout_race (void)
{
  gint64 l0;
  TrRun r = { 0 };
  guint told = 0;
  v_pool (); l0 = v_base () + 1;
  r.n = 1 + v_below (&v_rng, 12); r.nt = 1 + v_below (&v_rng, 3);
  r.t = g_new0 (Tr, r.n);
  r.never = dex_promise_new ();
  for (guint i = 0; i < r.n; i++)
    {
      Tr *t = &r.t[i];
      gint64 d = v_below (&v_rng, 1500);
      t->pool = v_chance (&v_rng, 20);
      if (t->pool) { t->deadline = d; t->f = dex_scheduler_spawn (v_pool (), 0, tr_fiber, t, NULL); continue; }
      t->deadline = g_get_monotonic_time () + d;
      t->f = dex_timeout_new_deadline (t->deadline);
      for (int j = 0; j < 3; j++)
        if (j == 0 || v_chance (&v_rng, 40))
          t->dep[j] = v_chance (&v_rng, 50) ? dex_future_finally (dex_ref (t->f), tr_told, t, NULL) : dex_future_first (dex_ref (t->f), dex_ref (r.never), NULL);
      if (v_chance (&v_rng, 30)) { dex_unref (t->f); t->f = NULL; }
    }
  v_par_ctx (r.nt, tr_thread, &r);
  v_run_until (tr_over, &r, "fibers awaiting timeouts");
  for (guint i = 0; i < r.n; i++)
    {
      Tr *t = &r.t[i];
      for (int j = 0; j < 3; j++)
        if (t->dep[j])
          {
            v_run_until_settled (t->dep[j], "a timeout with a dependent left");
            if (v_chance (&v_rng, 50)) v_check (v_out_read (t->dep[j], "dependent") == TIMEDOUT, "timeout-outcome", "a dependent of a timeout saw %s", v_out_str (v_out_read (t->dep[j], "dep")));
            dex_clear (&t->dep[j]);
          }
      told += t->told;
      dex_clear (&t->f);
    }
  v_eval (r.n); v_event (told + r.n);
  v_sigf ("%u %u %u", r.n, r.nt, told);
  v_sample ("%u timeouts moved and left by %u threads, %u callbacks told", r.n, r.nt, told);
  v_drain ();
  v_expect_live (l0, "timeouts");
  dex_unref (r.never);
  g_free (r.t);
}
/* on the threads of a pool, while the main loop stands still: they need no loop but their own */
typedef struct { Tr t; int *done; GThread *on; DexFuture *kept; guint shape; } Tp;
static DexFuture *
tp_told (DexFuture *f, gpointer data)
{
  Tp *p = data;
  v_check (g_thread_self () == p->on, "timeout-thread", "the callback of a timeout made on a thread of a pool ran on another one");
  DexFuture *r = tr_told (f, &p->t);
  g_atomic_int_inc (p->done);
  return r;
}
static DexFuture *
tp_fiber (gpointer data)
{
  Tp *p = data;
  DexFuture *r;
  p->on = g_thread_self ();
  if (p->shape == 1)
    {
      /* raced by one which comes much later */
      gint64 d = g_get_monotonic_time () + p->t.deadline;
      GError *e = NULL;
      dex_await (dex_future_first (dex_timeout_new_seconds (1000), dex_timeout_new_deadline (d), NULL), &e);
      v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_TIMED_OUT), "timeout-outcome", "a timeout gave '%s'", e ? e->message : "nothing");
      v_check (g_get_monotonic_time () >= d, "timeout-early", "a fiber went on before the deadline it awaited");
      g_clear_error (&e);
      p->t.told++;
      r = dex_future_new_true ();
    }
  else
    r = tr_fiber (&p->t);
  v_check (g_thread_self () == p->on, "timeout-thread", "a fiber of a pool went on on another thread after a timeout");
  g_atomic_int_inc (p->done);
  return r;
}
static void
tp_item (gpointer data)
{
  Tp *p = data;
  p->on = g_thread_self ();
  p->t.deadline += g_get_monotonic_time ();
  p->kept = dex_future_finally (dex_timeout_new_deadline (p->t.deadline), tp_told, p, NULL);
}
static void
s_timeout_pool (void)
{
  gint64 l0;
  int done = 0, n = 1 + v_below (&v_rng, v_chance (&v_rng, 10) ? 120 : 16);
  Tp *p = g_new0 (Tp, n);
  v_pool (); l0 = v_base ();
  for (int i = 0; i < n; i++)
    {
      p[i].done = &done;
      p[i].t.deadline = v_below (&v_rng, v_chance (&v_rng, 80) ? 1500 : 20000);
      p[i].shape = v_below (&v_rng, 3);
      if (p[i].shape == 2) dex_scheduler_push (v_pool (), tp_item, &p[i]);
      else p[i].kept = dex_scheduler_spawn (v_pool (), 0, tp_fiber, &p[i], NULL);
      if (v_chance (&v_rng, 30)) v_rnd_usleep (&v_rng, 300);
    }
  v_wait_count (&done, n, "timeouts on a pool while the main loop stands still");
  for (int i = 0; i < n; i++)
    {
      v_run_until_settled (p[i].kept, "a timeout on a pool");
      v_check (p[i].t.told == 1, "timeout-twice", "a timeout on a pool was told %d times", p[i].t.told);
      dex_unref (p[i].kept);
    }
  v_eval (n); v_event (n); v_sigf ("%d %u", n, v_iter % 8);
  v_sample ("%d timeouts awaited and told on a pool while the main loop stood still", n);
  v_drain ();
  v_expect_live (l0, "timeouts of a pool");
  g_free (p);
}

/* the last reference goes away at the moment it expires */
static void
drop_thread (guint idx, VRng *rng, gpointer data)
{
  DexFuture **f = data;
  for (guint i = idx; i < 16; i += 2) { gint64 t = g_get_monotonic_time () + v_below (rng, 120); while (g_get_monotonic_time () < t) ; dex_clear (&f[i]); }
}
static void
s_timeout_drop (void)
{
  gint64 l0;
  DexFuture *f[16];
  v_pool (); l0 = v_base ();
  v_allow_log = "destroyed while timer was active";
  for (int i = 0; i < 16; i++) f[i] = dex_timeout_new_usec (v_below (&v_rng, 600));
  v_par_ctx (2, drop_thread, f);
  v_drain ();
  v_expect_live (l0, "dropped timeouts");
  v_allow_log = NULL;
  v_eval (16); v_event (16); v_sigf ("%u", v_iter % 8);
}

/* ================================================================ C23 */
static const int sigs[] = { SIGUSR1, SIGUSR2, SIGHUP, SIGWINCH, SIGTERM, SIGINT };
#define NSIG_ 6
static int guard_hits[NSIG_];
static gboolean guard_cb (gpointer d) { guard_hits[GPOINTER_TO_INT (d)]++; return G_SOURCE_CONTINUE; }
static void
sig_guard (void)
{
  static gboolean done;
  if (done) return;
  done = TRUE;
  /* keeps the signal from ending the process, and shows when it has been dealt with */
  for (int i = 0; i < NSIG_; i++)
    {
      GSource *s = __real_g_unix_signal_source_new (sigs[i]);
      g_source_set_priority (s, G_PRIORITY_LOW);
      g_source_set_callback (s, guard_cb, GINT_TO_POINTER (i), NULL);
      g_source_attach (s, NULL);
      g_source_unref (s);
    }
}
typedef struct { DexFuture *f, *tell; int s; gboolean due; int told; } Sg;
static DexFuture *
sg_told (DexFuture *f, gpointer data)
{
  Sg *g = data;
  const GValue *v = dex_future_get_value (f, NULL);
  v_check (g->due, "signal-early", "a signal future resolved without its signal");
  v_check (++g->told == 1, "signal-twice", "a signal future was told twice");
  v_check (v && G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == sigs[g->s], "signal-value", "signal %d gave another value", sigs[g->s]);
  return dex_ref (f);
}
static gboolean sg_hit (gpointer d) { int *x = d; return guard_hits[x[0]] >= x[1]; }
static void
s_signals (void)
{
  gint64 l0;
  guint steps = 5 + v_below (&v_rng, 40), nsig = 0, resolved = 0, made = 0;
  Sg *g[400]; guint n = 0;
  uint64_t sig = 0;
  v_pool (); l0 = v_base ();
  sig_guard ();
  src_live = 0;
  while (steps--)
    {
      guint k = v_below (&v_rng, 10);
      if (k < 5 && n < 390)
        {
          Sg *x = g_new0 (Sg, 1);
          x->s = v_below (&v_rng, v_chance (&v_rng, 50) ? 2 : NSIG_);
          x->f = COUNTED (dex_unix_signal_new (sigs[x->s]));
          v_check (dex_future_is_pending (x->f), "signal-early", "a new signal future is not pending");
          if (v_chance (&v_rng, 30)) v_check (dex_unix_signal_get_signum (DEX_UNIX_SIGNAL (x->f)) == sigs[x->s], "signal-value", "signum of a signal future");
          if (v_chance (&v_rng, 60)) x->tell = dex_future_finally (dex_ref (x->f), sg_told, x, NULL);
          g[n++] = x; made++;
        }
      else if (k < 8)
        {
          int s = v_below (&v_rng, v_chance (&v_rng, 50) ? 2 : NSIG_), two[2] = { s, guard_hits[s] + 1 };
          for (guint i = 0; i < n; i++) if (g[i]->s == s) g[i]->due = TRUE;
          if (v_chance (&v_rng, 50)) kill (getpid (), sigs[s]); else raise (sigs[s]);
          v_run_until (sg_hit, two, "a signal");
          sig = v_hash_add (sig, s); nsig++;
          v_drain ();
        }
      else if (n > 0)
        {
          guint i = v_below (&v_rng, n);
          Sg *x = g[i];
          g[i] = g[--n];
          dex_clear (&x->tell); dex_clear (&x->f);
          g_free (x);
        }
      for (guint i = 0; i < n; i++)
        {
          DexFutureStatus st = dex_future_get_status (g[i]->f), want = g[i]->due ? DEX_FUTURE_STATUS_RESOLVED : DEX_FUTURE_STATUS_PENDING;
          const GValue *v;
          v_check (st == want, want ? "signal-lost" : "signal-early", "a future for signal %d %s", sigs[g[i]->s], g[i]->due ? "is pending although the signal was delivered" : "is settled although no such signal was delivered");
          if (st == DEX_FUTURE_STATUS_RESOLVED)
            {
              v = dex_future_get_value (g[i]->f, NULL);
              v_check (v && G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == sigs[g[i]->s], "signal-value", "a future for signal %d has another value", sigs[g[i]->s]);
              resolved++;
              if (g[i]->tell) { v_check (!dex_future_is_pending (g[i]->tell) && g[i]->told == 1, "signal-lost", "a dependent of a signal future was told %d times", g[i]->told); }
            }
          v_eval (1);
        }
    }
  v_event (nsig + made);
  v_sig (sig);
  v_sample ("%u futures, %u signals", made, nsig);
  while (n > 0) { Sg *x = g[--n]; dex_clear (&x->tell); dex_clear (&x->f); g_free (x); }
  v_drain ();
  v_expect_live (l0, "signal futures");
  v_run_until (src_gone, NULL, "sources of released signal futures go away");
}
typedef struct { DexFuture *f[24]; guint n; int s; } SgR;
static void
sgr_thread (guint idx, VRng *rng, gpointer data)
{
  SgR *r = data;
  if (idx == 0) { v_rnd_usleep (rng, 200); kill (getpid (), sigs[r->s]); return; }
  for (guint i = 0; i < r->n; i += 2) { v_rnd_usleep (rng, 60); dex_clear (&r->f[i]); }
}
static void
s_signal_race (void)
{
  gint64 l0;
  SgR r = { 0 };
  int two[2];
  v_pool (); l0 = v_base ();
  sig_guard ();
  r.n = 1 + v_below (&v_rng, 24); r.s = v_below (&v_rng, NSIG_);
  for (guint i = 0; i < r.n; i++) r.f[i] = dex_unix_signal_new (sigs[r.s]);
  two[0] = r.s; two[1] = guard_hits[r.s] + 1;
  v_par_ctx (2, sgr_thread, &r);
  v_run_until (sg_hit, two, "a signal");
  v_drain ();
  for (guint i = 1; i < r.n; i += 2)
    { v_check (dex_future_is_resolved (r.f[i]), "signal-lost", "a future for signal %d is not resolved", sigs[r.s]); dex_clear (&r.f[i]); }
  v_eval (r.n); v_event (r.n); v_sigf ("%u %d", r.n, r.s);
  v_expect_live (l0, "signal futures");
}

/* ================================================================ C24 */
typedef struct { DexFuture *f, *tell; int c; gboolean own; int told; gboolean due; } Ca;
static DexFuture *
ca_told (DexFuture *f, gpointer data)
{
  Ca *c = data;
  int o = v_out_read (f, "cancellable");
  v_check (++c->told == 1, "cancel-twice", "a cancellable future was told twice");
  v_check (o == CANCELLED, "cancel-outcome", "a cancelled future gave %s", v_out_str (o));
  v_check (c->due, "cancel-early", "a cancellable future was rejected before it was cancelled");
  return dex_ref (f);
}
static gboolean has_handlers (GCancellable *c) { return g_signal_has_handler_pending (c, g_signal_lookup ("cancelled", G_TYPE_CANCELLABLE), 0, TRUE); }
static void ca_cb (GCancellable *c, gpointer data) { DexFuture **f = data; dex_clear (f); }
static void
s_cancel_seq (void)
{
  gint64 l0;
  GCancellable *gc[3];
  gboolean cancelled[3] = { 0 };
  Ca *c[200]; guint n = 0, steps = 5 + v_below (&v_rng, 60), made = 0, rej = 0;
  uint64_t sig = 0;
  v_pool (); l0 = v_base ();
  for (int i = 0; i < 3; i++) gc[i] = g_cancellable_new ();
  while (steps--)
    {
      guint k = v_below (&v_rng, 12);
      if (k < 5 && n < 190)
        {
          Ca *x = g_new0 (Ca, 1);
          x->own = v_chance (&v_rng, 30); x->c = v_below (&v_rng, 3);
          x->f = x->own ? DEX_FUTURE (dex_cancellable_new ()) : dex_cancellable_new_from_cancellable (gc[x->c]);
          x->due = !x->own && cancelled[x->c];
          if (v_chance (&v_rng, 60)) x->tell = dex_future_finally (dex_ref (x->f), ca_told, x, NULL);
          c[n++] = x; made++;
        }
      else if (k < 7)
        {
          int i = v_below (&v_rng, 3);
          DexFuture *gone = NULL;
          if (v_chance (&v_rng, 70))
            {
              for (guint j = 0; j < n; j++) if (!c[j]->own && c[j]->c == i) c[j]->due = TRUE;
              cancelled[i] = TRUE;
              if (v_chance (&v_rng, 20) && !g_cancellable_is_cancelled (gc[i]))
                {
                  /* another handler drops a future of the same cancellable while it is being cancelled */
                  gulong h = g_signal_connect (gc[i], "cancelled", G_CALLBACK (ca_cb), &gone);
                  gone = dex_cancellable_new_from_cancellable (gc[i]);
                  g_cancellable_cancel (gc[i]);
                  g_signal_handler_disconnect (gc[i], h);
                  v_check (gone == NULL, "cancel-lost", "handler not run");
                }
              else g_cancellable_cancel (gc[i]);
            }
          else { g_cancellable_reset (gc[i]); cancelled[i] = FALSE; }
          sig = v_hash_add (sig, i * 2 + cancelled[i]);
        }
      else if (k < 8 && n > 0)
        {
          Ca *x = c[v_below (&v_rng, n)];
          /* either kind can be cancelled directly */
          x->due = TRUE;
          dex_cancellable_cancel (DEX_CANCELLABLE (x->f));
          sig = v_hash_add (sig, 17);
        }
      else if (k < 10 && n > 0)
        {
          guint i = v_below (&v_rng, n);
          Ca *x = c[i];
          c[i] = c[--n];
          dex_clear (&x->tell); dex_clear (&x->f); g_free (x);
        }
      else if (n > 0) dex_clear (&c[v_below (&v_rng, n)]->tell);
      if (v_chance (&v_rng, 50)) v_drain ();
      for (guint i = 0; i < n; i++)
        {
          int o = v_out_read (c[i]->f, "cancellable");
          v_check (o == (c[i]->due ? CANCELLED : V_PENDING), c[i]->due ? "cancel-lost" : "cancel-early", "a future of a cancellable is %s, expected %s", v_out_str (o), c[i]->due ? "cancelled" : "pending");
          v_eval (1);
        }
    }
  v_drain ();
  for (guint i = 0; i < n; i++)
    {
      rej += c[i]->due;
      if (c[i]->tell && c[i]->due) { v_run_until_settled (c[i]->tell, "dependent of a cancelled future"); v_check (c[i]->told == 1, "cancel-lost", "a dependent was told %d times", c[i]->told); }
    }
  v_event (made); v_sig (sig);
  v_sample ("%u futures of three cancellables and of their own, %u cancelled at the end", made, rej);
  while (n > 0) { Ca *x = c[--n]; dex_clear (&x->tell); dex_clear (&x->f); g_free (x); }
  v_expect_live (l0, "cancellable futures");
  for (int i = 0; i < 3; i++)
    {
      v_check (!has_handlers (gc[i]), "handler-left", "a handler is left on a GCancellable after its futures were released");
      v_check (G_OBJECT (gc[i])->ref_count == 1, "cancellable-leak", "%u references to a GCancellable are left", G_OBJECT (gc[i])->ref_count);
      g_object_unref (gc[i]);
    }
}
typedef struct { GCancellable *gc; DexFuture *f[48], *pre[16]; int made[48]; guint nmk, npre; _Atomic int cancel_done, cancel_begun; DexFuture *own[8]; } Cr;
static void
cr_thread (guint idx, VRng *rng, gpointer data)
{
  Cr *c = data;
  if (idx == 0)
    {
      v_rnd_usleep (rng, 150);
      v_noise_point ();
      c->cancel_begun = 1;
      g_cancellable_cancel (c->gc);
      c->cancel_done = 1;
      return;
    }
  if (idx == 1)
    {
      /* releases what exists while it is being cancelled */
      for (guint i = 0; i < c->npre; i += 2) { if (v_chance (rng, 50)) v_rnd_usleep (rng, 30); dex_clear (&c->pre[i]); }
      for (int i = 0; i < 8; i++) if (c->own[i]) dex_cancellable_cancel (DEX_CANCELLABLE (c->own[i]));
      return;
    }
  for (guint i = (idx - 2); i < c->nmk; i += 2)
    {
      int before = c->cancel_done, begun;
      int o;
      if (v_chance (rng, 30)) v_rnd_usleep (rng, 40);
      before = c->cancel_done;
      c->f[i] = dex_cancellable_new_from_cancellable (c->gc);
      o = v_out_read (c->f[i], "new cancellable");
      begun = c->cancel_begun;
      v_check (o == V_PENDING || o == CANCELLED, "cancel-outcome", "a cancellable future is %s", v_out_str (o));
      v_check (!before || o == CANCELLED, "cancel-lost", "a future of a GCancellable that was cancelled before is pending");
      v_check (o == V_PENDING || begun, "cancel-early", "a future of a GCancellable nobody cancelled is rejected");
      if (v_chance (rng, 40)) dex_clear (&c->f[i]);
    }
}
static void
s_cancel_race (void)
{
  gint64 l0;
  Cr c = { 0 };
  guint kept = 0;
  v_pool (); l0 = v_base ();
  c.gc = g_cancellable_new ();
  c.npre = v_below (&v_rng, 17); c.nmk = v_below (&v_rng, 49);
  for (guint i = 0; i < c.npre; i++) c.pre[i] = dex_cancellable_new_from_cancellable (c.gc);
  for (int i = 0; i < 8; i++) if (v_chance (&v_rng, 40)) c.own[i] = v_chance (&v_rng, 50) ? DEX_FUTURE (dex_cancellable_new ()) : dex_cancellable_new_from_cancellable (c.gc);
  v_par (4, cr_thread, &c);
  for (guint i = 0; i < 48; i++) if (c.f[i])
    { v_check (v_out_read (c.f[i], "cancelled") == CANCELLED, "cancel-lost", "a future made while its GCancellable was being cancelled is %s", v_out_str (v_out_read (c.f[i], "x"))); dex_clear (&c.f[i]); kept++; }
  for (guint i = 0; i < 16; i++) if (c.pre[i])
    { v_check (v_out_read (c.pre[i], "cancelled") == CANCELLED, "cancel-lost", "a future of a cancelled GCancellable is %s", v_out_str (v_out_read (c.pre[i], "x"))); dex_clear (&c.pre[i]); kept++; }
  for (guint i = 0; i < 8; i++) if (c.own[i])
    { v_check (v_out_read (c.own[i], "cancelled") == CANCELLED, "cancel-lost", "a cancelled future is %s", v_out_str (v_out_read (c.own[i], "x"))); dex_clear (&c.own[i]); kept++; }
  v_check (!has_handlers (c.gc), "handler-left", "a handler is left on a GCancellable after its futures were released");
  v_check (G_OBJECT (c.gc)->ref_count == 1, "cancellable-leak", "%u references to a GCancellable are left", G_OBJECT (c.gc)->ref_count);
  g_object_unref (c.gc);
  v_eval (c.nmk + c.npre + 2); v_event (c.nmk + c.npre);
  v_sigf ("%u %u %u", c.npre, c.nmk, kept);
  v_sample ("%u futures before and %u made meanwhile, %u held to the end", c.npre, c.nmk, kept);
  v_expect_live (l0, "cancellable futures");
}

static const VScenario scenarios[] = {
  { "timeouts", s_timeouts, 20 }, { "edges", s_edges, 100 }, { "timeout-race", s_timeout_race, 60 }, { "timeout-drop", s_timeout_drop, 60 }, { "timeout-pool", s_timeout_pool, 60 },
  { "signals", s_signals, 20 }, { "signal-race", s_signal_race, 60 },
  { "cancel-seq", s_cancel_seq, 200 }, { "cancel-race", s_cancel_race, 200 },
  { NULL }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
