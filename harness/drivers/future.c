/* C01-C04: settlement, notification, then/catch/finally/loop, callback placement */
#include "vout.h"
#include "dex-scheduler-private.h"
#include "dex-block-private.h"

#define pool v_pool

/* ================================================================ C01: settlement */
#define SK 8
enum { K_PROMISE, K_CANCELLABLE, K_THEN, K_ALL, K_FIRST, K_DELAYED, K_PCANC, N_KINDS };
typedef struct {
  int kind;
  DexPromise *src;        /* what the completers complete, if any */
  DexFuture *f;           /* what the readers read */
} SFut;
typedef struct {
  SFut s[SK];
  guint completers, readers, churners;
  int stop_count;
  _Atomic int stop;
  int seen[16][SK];
  const GValue *ptr[16][SK];
  int base[16];
  guint reads[16], pend_reads[16];
  int rej_mask;
} Settle;

static DexFuture *pass_cb (DexFuture *f, gpointer d) { return NULL; }

static int contender (Settle *c, guint t, guint k) { return c->base[t] + (int)k * 40 + (((c->rej_mask >> ((t * 3 + k) & 15)) & 1) ? 1 : 0); }

static void
settle_thread (guint idx, VRng *rng, gpointer data)
{
  Settle *c = data;
  if (idx < c->completers)
    {
      guint order[SK];
      for (guint i = 0; i < SK; i++) order[i] = i;
      /* mostly the same order so that the threads collide */
      if (v_chance (rng, 20)) for (guint i = SK - 1; i > 0; i--) { guint j = v_below (rng, i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
      for (guint i = 0; i < SK; i++)
        {
          SFut *s = &c->s[order[i]];
          v_noise_point ();
          if (s->kind == K_CANCELLABLE) { dex_cancellable_cancel (DEX_CANCELLABLE (s->f)); continue; }
          if (s->kind == K_DELAYED && v_chance (rng, 50)) dex_delayed_release (DEX_DELAYED (s->f));
          v_out_complete (s->src, contender (c, idx, order[i]), v_chance (rng, 50));
          if (s->kind == K_DELAYED) dex_delayed_release (DEX_DELAYED (s->f));
          if (s->kind == K_PCANC && v_chance (rng, 50)) g_cancellable_cancel (dex_promise_get_cancellable (s->src));
        }
      g_atomic_int_inc (&c->stop_count);
      return;
    }
  if (idx < c->completers + c->readers)
    {
      guint r = idx - c->completers;
      for (int last = 0; last < 2; )
        {
          if (g_atomic_int_get (&c->stop_count) >= (int)c->completers) last++;
          for (guint k = 0; k < SK; k++)
            {
              int n = v_out_read (c->s[k].f, "reader");
              if (n == V_PENDING)
                {
                  c->pend_reads[r]++;
                  if (c->seen[r][k] != V_PENDING) v_fail ("status-went-back", "future %u (kind %d) settled as %s, later pending again", k, c->s[k].kind, v_out_str (c->seen[r][k]));
                  continue;
                }
              c->reads[r]++;
              if (c->seen[r][k] == V_PENDING)
                {
                  c->seen[r][k] = n;
                  c->ptr[r][k] = dex_future_get_value (c->s[k].f, NULL);
                }
              else if (c->seen[r][k] != n || c->ptr[r][k] != dex_future_get_value (c->s[k].f, NULL))
                v_fail ("outcome-changed", "future %u (kind %d) first %s then %s", k, c->s[k].kind, v_out_str (c->seen[r][k]), v_out_str (n));
            }
        }
      return;
    }
  /* churner: dependents come and go while the futures settle */
  for (guint i = 0; i < 10; i++)
    {
      guint k = v_below (rng, SK);
      DexFuture *in[2] = { c->s[k].f, c->s[(k + 1) % SK].f }, *set;
      /* a delayed future whose last dependent goes away is abandoned by design */
      if (c->s[k].kind == K_DELAYED || c->s[(k + 1) % SK].kind == K_DELAYED) continue;
      set = v_chance (rng, 50) ? dex_future_firstv (in, 2) : dex_future_allv (in, 2);
      v_noise_point ();
      dex_unref (set);
    }
}

static void
s_settle (void)
{
  Settle c = { 0 };
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  uint64_t sig = 0;
  guint settled_by[8] = { 0 };

  c.completers = 2 + v_below (&v_rng, 3); c.readers = 1 + v_below (&v_rng, 3); c.churners = v_below (&v_rng, 2);
  c.rej_mask = v_rand (&v_rng) & 0xffff;
  for (guint t = 0; t < c.completers; t++) c.base[t] = 2 * (int)(t + 4 * v_below (&v_rng, 5)) + 1000 * (int)t;
  for (guint i = 0; i < 16; i++) for (guint k = 0; k < SK; k++) c.seen[i][k] = V_PENDING;
  for (guint k = 0; k < SK; k++)
    {
      SFut *s = &c.s[k];
      s->kind = v_chance (&v_rng, 45) ? K_PROMISE : v_below (&v_rng, N_KINDS);
      if (s->kind == K_CANCELLABLE) { s->f = DEX_FUTURE (dex_cancellable_new ()); continue; }
      s->src = s->kind == K_PCANC ? dex_promise_new_cancellable () : dex_promise_new ();
      switch (s->kind)
        {
        case K_THEN: s->f = dex_future_then (dex_ref (s->src), pass_cb, NULL, NULL); break;
        case K_ALL: s->f = dex_future_all (dex_ref (s->src), NULL); break;
        case K_FIRST: s->f = dex_future_first (dex_ref (s->src), NULL); break;
        case K_DELAYED: s->f = dex_delayed_new (DEX_FUTURE (s->src)); break;
        default: s->f = dex_ref (s->src); break;
        }
    }
  v_par_ctx (c.completers + c.readers + c.churners, settle_thread, &c);
  v_drain ();
  for (guint k = 0; k < SK; k++)
    {
      SFut *s = &c.s[k];
      int src = s->src ? v_out_read (DEX_FUTURE (s->src), "final") : V_PENDING, fin = v_out_read (s->f, "final"), want = src;
      v_eval (1);
      if (s->kind == K_CANCELLABLE) v_check (fin == V_OUT_IOERR + 2 * G_IO_ERROR_CANCELLED, "wrong-outcome", "cancelled DexCancellable is %s", v_out_str (fin));
      else
        {
          gboolean ok = FALSE;
          for (guint t = 0; t < c.completers; t++) if (src == contender (&c, t, k)) { ok = TRUE; settled_by[t]++; sig = v_hash_add (sig, t); }
          v_check (ok, "outcome-invented", "promise %u settled as %s, which nobody gave it", k, v_out_str (src));
          if (s->kind == K_ALL) want = (src & 1) ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : V_OUT_TRUE;
          v_check (fin == want, "wrong-outcome", "kind %d: source %s, derived %s", s->kind, v_out_str (src), v_out_str (fin));
        }
      for (guint r = 0; r < c.readers; r++)
        if (c.seen[r][k] != V_PENDING)
          v_check (c.seen[r][k] == fin, "outcome-changed", "reader saw %s, final outcome %s (kind %d)", v_out_str (c.seen[r][k]), v_out_str (fin), s->kind);
      /* too late */
      if (s->src)
        {
          const GValue *v0 = dex_future_get_value (DEX_FUTURE (s->src), NULL);
          v_out_complete (s->src, 778 + (int)v_below (&v_rng, 2) + 2 * (int)v_below (&v_rng, 10), TRUE);
          v_check (v_out_read (DEX_FUTURE (s->src), "late") == src && dex_future_get_value (DEX_FUTURE (s->src), NULL) == v0, "outcome-changed", "a late completion changed %s", v_out_str (src));
          v_check (v_out_read (s->f, "late") == fin, "outcome-changed", "a late completion changed the derived future");
        }
    }
  for (guint k = 0; k < SK; k++) { dex_clear (&c.s[k].src); dex_unref (c.s[k].f); }
  v_drain ();
  v_expect_live (l0, "settlement race");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads of losing completions: boxes %d, objects %d left", v_box_live () - box0, v_obj_live () - obj0);
  for (guint r = 0; r < c.readers; r++) { v_event (c.reads[r]); v_count ("settled_reads", c.reads[r]); v_count ("pending_reads", c.pend_reads[r]); }
  v_sig (sig);
  v_sample ("%u completers x %u readers on %u futures; winners per completer %u/%u/%u/%u", c.completers, c.readers, SK, settled_by[0], settled_by[1], settled_by[2], settled_by[3]);
}

/* one thread, many completions: the first one counts */
static void
s_seq (void)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  uint64_t sig = 0;
  for (int r = 0; r < 6; r++)
    {
      DexPromise *p = v_chance (&v_rng, 30) ? dex_promise_new_cancellable () : dex_promise_new ();
      int want = V_PENDING;
      for (guint i = 0, n = v_below (&v_rng, 12); i < n; i++)
        {
          int x = v_below (&v_rng, 400);
          switch (v_below (&v_rng, 4))
            {
            case 0: case 1: v_out_complete (p, x, v_chance (&v_rng, 50)); if (want == V_PENDING) want = x; break;
            case 2: { DexFuture *d = dex_future_first (dex_ref (p), dex_future_new_infinite (), NULL); v_check (v_out_read (d, "dep") == want, "wrong-outcome", "dependent %s want %s", v_out_str (v_out_read (d, "")), v_out_str (want)); dex_unref (d); } break;
            default: if (dex_promise_get_cancellable (p)) g_cancellable_cancel (dex_promise_get_cancellable (p)); break;
            }
          v_check (v_out_read (DEX_FUTURE (p), "seq") == want, "wrong-outcome", "is %s, first completion was %s", v_out_str (v_out_read (DEX_FUTURE (p), "")), v_out_str (want));
          v_eval (1); v_event (1);
          sig = v_hash_add (sig, x);
        }
      dex_unref (p);
    }
  v_check (v_live () == l0 && v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "live objects %ld boxes %d objects %d", (long)(v_live () - l0), v_box_live () - box0, v_obj_live () - obj0);
  v_sig (sig);
}

/* ================================================================ C02: everyone is told once */
#define NP 4
#define ND 48
typedef struct Dep {
  DexFuture *f;             /* the dependent, when it can be looked at */
  int kind, src, src2, want;
  int calls, destroyed, ready_err;
  gboolean released;        /* given up by the test */
  gboolean pre, via_pool;
  struct Att *a;
  int settled_inline;
} Dep;
typedef struct Att {
  DexPromise *p[NP];
  int out[NP];
  Dep d[ND];
  int nd;
  int pending_work;
  int work_done;
  int fibers_done, fibers;
  guint n_completers;
} Att;

enum { D_THEN, D_FINALLY, D_CATCH, D_FIRST, D_ALL, D_ANY, D_RACE, D_DELAYED, D_FIBER, D_ND };

static DexFuture *
dep_cb (DexFuture *f, gpointer data)
{
  Dep *d = data;
  int n = v_out_read (f, "callback");
  if (n == V_PENDING) v_fail ("told-too-early", "callback ran with a pending future");
  if (n != d->a->out[d->src]) v_fail ("told-wrong-outcome", "callback saw %s, source settles as %s", v_out_str (n), v_out_str (d->a->out[d->src]));
  if (g_atomic_int_add (&d->calls, 1) != 0) v_fail ("told-twice", "callback of dependent kind %d ran twice", d->kind);
  return NULL;
}
static void dep_destroy (gpointer data) { Dep *d = data; if (g_atomic_int_add (&d->destroyed, 1)) v_fail ("destroyed-twice", "user data destroyed twice"); }

static DexFuture *
dep_fiber (gpointer data)
{
  Dep *d = data;
  GError *e = NULL;
  const GValue *v;
  DexFuture *f = dex_ref (DEX_FUTURE (d->a->p[d->src]));
  int n;
  v = dex_await_borrowed (f, &e);
  n = v ? v_out_of_value (v, "fiber") : v_out_of_error (e, "fiber");
  g_clear_error (&e);
  if (n != d->a->out[d->src]) v_fail ("told-wrong-outcome", "fiber resumed with %s, awaited future settles as %s", v_out_str (n), v_out_str (d->a->out[d->src]));
  if (g_atomic_int_add (&d->calls, 1)) v_fail ("told-twice", "fiber resumed twice");
  return f;
}

static void
dep_attach (Att *a, Dep *d)
{
  DexFuture *f = DEX_FUTURE (a->p[d->src]);
  switch (d->kind)
    {
    case D_THEN: d->f = dex_future_then (dex_ref (f), dep_cb, d, dep_destroy); break;
    case D_FINALLY: d->f = dex_future_finally (dex_ref (f), dep_cb, d, dep_destroy); break;
    case D_CATCH: d->f = dex_future_catch (dex_ref (f), dep_cb, d, dep_destroy); break;
    case D_FIRST: d->f = dex_future_first (dex_ref (f), dex_future_new_infinite (), NULL); break;
    case D_ALL: d->f = dex_future_all (dex_ref (f), dex_ref (DEX_FUTURE (a->p[d->src2])), NULL); break;
    case D_ANY: d->f = dex_future_any (dex_ref (f), dex_ref (f), NULL); break;
    case D_RACE: d->f = dex_future_all_race (dex_ref (f), NULL); break;
    case D_DELAYED: d->f = dex_delayed_new (f); dex_delayed_release (DEX_DELAYED (d->f)); break;
    default: break;
    }
}
static int
dep_want (Att *a, Dep *d)
{
  int o = a->out[d->src];
  switch (d->kind)
    {
    case D_ALL: return ((o | a->out[d->src2]) & 1) ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : V_OUT_TRUE;
    case D_ANY: return (o & 1) ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : o;
    case D_RACE: return (o & 1) ? o : V_OUT_TRUE;
    default: return o;
    }
}
static int
dep_want_calls (Att *a, Dep *d)
{
  gboolean rej = a->out[d->src] & 1;
  return d->kind == D_FINALLY || d->kind == D_FIBER || (d->kind == D_THEN && !rej) || (d->kind == D_CATCH && rej);
}
typedef struct { Dep *d; } WItem;
static void
pool_attach (gpointer data)
{
  WItem *w = data;
  dep_attach (w->d->a, w->d);
  g_atomic_int_inc (&w->d->a->work_done);
  g_free (w);
}

/* thread roles: 0..n_completers-1 complete, then releaser, then attachers, main attaches too */
static void
att_thread (guint idx, VRng *rng, gpointer data)
{
  Att *a = data;
  if (idx < a->n_completers)
    {
      for (int i = idx; i < NP; i += a->n_completers) { v_noise_point (); v_out_complete (a->p[i], a->out[i], v_chance (rng, 50)); }
      return;
    }
  if (idx == a->n_completers)
    {
      for (int i = 0; i < a->nd; i++)
        if (a->d[i].pre && a->d[i].released && a->d[i].f) { DexFuture *f = g_steal_pointer (&a->d[i].f); v_noise_point (); dex_unref (f); }
      return;
    }
  for (int i = 0; i < a->nd; i++)
    if (!a->d[i].pre && a->d[i].kind != D_FIBER && i % 4 == (int)(idx - a->n_completers - 1))
      {
        v_noise_point ();
        if (a->d[i].via_pool)
          {
            WItem *w = g_new (WItem, 1);
            w->d = &a->d[i];
            g_atomic_int_inc (&a->pending_work);
            dex_scheduler_push (pool (), pool_attach, w);
          }
        else dep_attach (a, &a->d[i]);
      }
}
static void
att_main (guint idx, VRng *rng, gpointer data)
{
  Att *a = data;
  for (int i = 0; i < a->nd; i++)
    {
      Dep *d = &a->d[i];
      if (d->pre) continue;
      if (d->kind == D_FIBER)
        {
          d->f = dex_scheduler_spawn (v_chance (rng, 40) ? pool () : NULL, v_chance (rng, 50) ? 0 : 32768, dep_fiber, d, NULL);
        }
      else if (i % 4 >= 2) { v_noise_point (); dep_attach (a, d); }
      if (v_chance (rng, 20)) g_main_context_iteration (NULL, FALSE);
    }
}
static gboolean
att_done (gpointer data)
{
  Att *a = data;
  if (g_atomic_int_get (&a->work_done) < g_atomic_int_get (&a->pending_work)) return FALSE;
  for (int i = 0; i < a->nd; i++)
    if (a->d[i].f && dex_future_is_pending (a->d[i].f)) return FALSE;
  return TRUE;
}

static void
s_attach (void)
{
  Att *a = g_new0 (Att, 1);
  gint64 l0;
  guint calls = 0;
  uint64_t sig = 0;

  pool ();
  l0 = v_base ();
  a->n_completers = 1 + v_below (&v_rng, 3);
  a->nd = 8 + v_below (&v_rng, ND - 8);
  for (int i = 0; i < NP; i++) { a->p[i] = dex_promise_new (); a->out[i] = v_below (&v_rng, 600); }
  for (int i = 0; i < a->nd; i++)
    {
      Dep *d = &a->d[i];
      d->a = a; d->src = v_below (&v_rng, NP); d->src2 = v_below (&v_rng, NP);
      d->kind = v_below (&v_rng, D_ND);
      d->pre = v_chance (&v_rng, 40);
      d->released = d->pre && d->kind != D_FIBER && v_chance (&v_rng, 40);
      if (d->kind == D_FIBER) d->pre = FALSE;
      /* threads without a scheduler do not attach callbacks */
      d->via_pool = v_chance (&v_rng, 30);
      if (!d->pre && i % 4 < 2 && !d->via_pool && d->kind <= D_CATCH) d->kind = D_FIRST + v_below (&v_rng, 5);
      if (d->pre) dep_attach (a, d);
    }
  /* two attacher threads take the dependents i%4 in {0,1} */
  v_par_main (a->n_completers + 1 + 2, att_thread, a, att_main);
  v_run_until (att_done, a, "dependents of settled futures to be told");
  for (int i = 0; i < a->nd; i++)
    {
      Dep *d = &a->d[i];
      int got;
      v_eval (1);
      calls += g_atomic_int_get (&d->calls);
      sig = v_hash_add (sig, d->kind * 8 + d->calls);
      if (d->released) { v_check (d->calls <= dep_want_calls (a, d), "told-wrongly", "released dependent of kind %d called %d times", d->kind, d->calls); continue; }
      v_check (d->f != NULL, "harness", "dependent %d never attached", i);
      got = v_out_read (d->f, "dependent");
      v_check (got == dep_want (a, d), "told-wrong-outcome", "dependent kind %d on %s/%s is %s, want %s", d->kind, v_out_str (a->out[d->src]), v_out_str (a->out[d->src2]), v_out_str (got), v_out_str (dep_want (a, d)));
      v_check (g_atomic_int_get (&d->calls) == dep_want_calls (a, d), "told-count", "dependent kind %d on %s called %d times", d->kind, v_out_str (a->out[d->src]), d->calls);
    }
  /* passing an outcome on must not take it from the future that has it */
  for (int i = 0; i < NP; i++)
    {
      int got = v_out_read (DEX_FUTURE (a->p[i]), "source");
      v_check (got == a->out[i], "outcome-changed", "future settled as %s is now %s", v_out_str (a->out[i]), v_out_str (got));
    }
  for (int i = 0; i < a->nd; i++) dex_clear (&a->d[i].f);
  for (int i = 0; i < NP; i++) dex_unref (a->p[i]);
  v_drain ();
  v_expect_live (l0, "attachment race");
  for (int i = 0; i < a->nd; i++)
    if (a->d[i].kind <= D_CATCH) v_check (g_atomic_int_get (&a->d[i].destroyed) == 1, "destroy-count", "user data of dependent kind %d destroyed %d times", a->d[i].kind, a->d[i].destroyed);
  v_event (a->nd + calls); v_sig (sig); v_count ("callbacks", calls);
  v_sample ("%d dependents of %d futures, %u callbacks, %u completing threads", a->nd, NP, calls, a->n_completers);
  g_free (a);
}

/* dependents attached from within callbacks of the same future, many of them, and deep */
typedef struct { DexFuture *src; int out, left, calls, made; GPtrArray *keep; } Nest;
static DexFuture *
nest_cb (DexFuture *f, gpointer data)
{
  Nest *n = data;
  if (v_out_read (f, "nested") != n->out) v_fail ("told-wrong-outcome", "nested callback saw %s", v_out_str (v_out_read (f, "")));
  n->calls++;
  while (n->left > 0 && v_chance (&v_rng, 70))
    {
      n->left--; n->made++;
      g_ptr_array_add (n->keep, dex_future_finally (dex_ref (n->src), nest_cb, n, NULL));
    }
  return NULL;
}
static gboolean nest_done (gpointer d) { Nest *n = d; return n->calls >= n->made; }
static void
s_nested (void)
{
  gint64 l0 = v_live ();
  Nest n = { .left = 30 + v_below (&v_rng, 200), .out = v_below (&v_rng, 500) };
  DexPromise *p = dex_promise_new ();
  n.src = DEX_FUTURE (p); n.keep = g_ptr_array_new_with_free_func (dex_unref);
  n.made = 1 + v_below (&v_rng, 40);
  for (int i = 0; i < n.made; i++) g_ptr_array_add (n.keep, dex_future_finally (dex_ref (p), nest_cb, &n, NULL));
  v_out_complete (p, n.out, TRUE);
  v_run_until (nest_done, &n, "callbacks attached from callbacks");
  v_drain ();
  v_check (n.calls == n.made, "told-count", "%d callbacks ran, %d attached", n.calls, n.made);
  for (guint i = 0; i < n.keep->len; i++) v_check (v_out_read (n.keep->pdata[i], "nested") == n.out, "told-wrong-outcome", "dependent %u", i);
  v_eval (n.made); v_event (n.calls); v_sigf ("nest %d %d", n.calls, n.left);
  g_ptr_array_unref (n.keep); dex_unref (p);
  v_drain ();
  v_expect_live (l0, "nested attachments");
}

/* a crowd waits for one future */
typedef struct { struct Crowd *c; guint id; gboolean dropped; int calls, destroyed; DexFuture *f; guint8 kind; } Member;
typedef struct Crowd { DexPromise *p; int out, due, told; Member *m; guint n; GPtrArray *extra; } Crowd;
static DexFuture *
crowd_cb (DexFuture *f, gpointer data)
{
  Member *m = data;
  m->calls++;
  if (m->calls > 1) v_fail ("told-count", "dependent %u of %u was told %d times", m->id, m->c->n, m->calls);
  if (v_out_read (f, "crowd") != m->c->out) v_fail ("told-wrong-outcome", "dependent %u of %u was told %s, the future is %s", m->id, m->c->n, v_out_str (v_out_read (f, "crowd")), v_out_str (m->c->out));
  m->c->told++;
  return NULL;
}
static DexFuture *
crowd_fiber (gpointer data)
{
  Member *m = data;
  GError *e = NULL;
  int got;
  if (dex_await (dex_ref (m->c->p), &e)) got = v_out_read (DEX_FUTURE (m->c->p), "crowd");
  else { got = v_out_of_error (e, "crowd"); g_clear_error (&e); }
  m->calls++;
  if (got != m->c->out) v_fail ("told-wrong-outcome", "fiber %u of %u got %s, the future is %s", m->id, m->c->n, v_out_str (got), v_out_str (m->c->out));
  m->c->told++;
  return dex_ref (m->c->p);
}
static void crowd_gone (gpointer data) { ((Member *) data)->destroyed++; }
static void crowd_thread (guint idx, VRng *rng, gpointer data) { Crowd *c = data; v_noise_point (); v_out_complete (c->p, c->out, TRUE); }
static gboolean crowd_done (gpointer d) { Crowd *c = d; return c->told >= c->due; }
static void
s_crowd (void)
{
  static const guint edge[] = { 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 5000 };
  static const guint huge[] = { 32768, 65535, 65536, 65537, 70000 };
  gint64 l0 = v_base ();
  Crowd c = { 0 };
  guint drops = 0, fibpct = v_chance (&v_rng, 40) ? 20 : 0, nf = 0;
  c.n = v_chance (&v_rng, 8) ? huge[v_below (&v_rng, G_N_ELEMENTS (huge))] : edge[v_below (&v_rng, G_N_ELEMENTS (edge))];
  if (v_opts.tsan) c.n = MIN (c.n, 1000);
  c.out = v_below (&v_rng, 500);
  c.p = dex_promise_new ();
  c.m = g_new0 (Member, c.n);
  for (guint i = 0; i < c.n; i++)
    {
      Member *m = &c.m[i];
      DexFuture *s = DEX_FUTURE (c.p);
      m->c = &c; m->id = i; m->kind = v_below (&v_rng, 7);
      if (m->kind == 6 && nf < 400 && v_chance (&v_rng, fibpct)) nf++;
      else if (m->kind == 6) m->kind = 0;
      switch (m->kind)
        {
        case 0: m->f = dex_future_finally (dex_ref (s), crowd_cb, m, crowd_gone); break;
        case 1: m->f = dex_future_then (dex_ref (s), crowd_cb, m, crowd_gone); break;
        case 2: m->f = dex_future_catch (dex_ref (s), crowd_cb, m, crowd_gone); break;
        case 3: m->f = dex_future_firstv (&s, 1); break;
        case 4: m->f = dex_delayed_new (s); dex_delayed_release (DEX_DELAYED (m->f)); break;
        case 5: { DexFuture *two[2] = { s, s }; m->f = dex_future_anyv (two, 2); break; }
        default: m->f = dex_scheduler_spawn (NULL, 0, crowd_fiber, m, crowd_gone); break;
        }
    }
  if (nf) v_drain ();   /* the fibers wait now */
  for (guint i = 0, k = v_below (&v_rng, 3) * 15; i < k; i++)
    {
      Member *m = &c.m[v_chance (&v_rng, 30) ? (v_chance (&v_rng, 50) ? 0 : c.n - 1) : v_below (&v_rng, c.n)];
      if (m->kind == 6 || m->dropped) continue;
      m->dropped = TRUE; dex_clear (&m->f); drops++;
    }
  for (guint i = 0; i < c.n; i++)
    {
      Member *m = &c.m[i];
      gboolean rej = c.out & 1;
      if (m->dropped) continue;
      c.due += m->kind == 0 || m->kind == 6 || (m->kind == 1 && !rej) || (m->kind == 2 && rej);
    }
  if (v_chance (&v_rng, 40)) v_par (1, crowd_thread, &c);
  else v_out_complete (c.p, c.out, TRUE);
  v_run_until (crowd_done, &c, "the crowd behind a future to be told");
  v_drain ();
  for (guint i = 0; i < c.n; i++)
    {
      Member *m = &c.m[i];
      int got;
      if (m->dropped) { v_check (m->calls == 0, "told-wrongly", "dependent %u of %u was released and told", i, c.n); continue; }
      got = v_out_read (m->f, "crowd");
      v_check (got == (m->kind == 5 && (c.out & 1) ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : c.out), "told-wrong-outcome", "dependent %u of %u (kind %u) is %s, the future is %s", i, c.n, m->kind, v_out_str (got), v_out_str (c.out));
      v_check (m->calls == (m->kind == 0 || m->kind == 6 || (m->kind == 1 && !(c.out & 1)) || (m->kind == 2 && (c.out & 1))), "told-count", "dependent %u of %u (kind %u) was told %d times", i, c.n, m->kind, m->calls);
      v_eval (2);
    }
  v_event (c.told); v_sigf ("%u %d %u %u", c.n, c.out & 1, drops, nf); v_count ("callbacks", c.told);
  v_sample ("%u dependents of one future (%u fibers), %u left before, %d told", c.n, nf, drops, c.told);
  for (guint i = 0; i < c.n; i++) dex_clear (&c.m[i].f);
  dex_unref (c.p);
  v_drain ();
  v_expect_live (l0, "crowd");
  for (guint i = 0; i < c.n; i++)
    if (c.m[i].kind < 3 || c.m[i].kind == 6) v_check (c.m[i].destroyed == 1, "destroy-count", "data of dependent %u of %u destroyed %d times", i, c.n, c.m[i].destroyed);
  g_free (c.m);
}

/* ================================================================ C03: callback trees against a model */
#define TN 26
#define TB 4
enum { B_NULL, B_STATIC, B_PROMISE, B_SAME, B_NODE };
typedef struct { int what, n, node; } Beh;
typedef struct Node {
  struct Tree *t;
  int id;
  gboolean source;
  int parent, kind;      /* kind: bits then=1 catch=2 loop=4 */
  Beh beh[TB]; int nb;
  DexFuture *f;
  int prom;              /* source: promise index or -1 (static n) */
  int n;
  gboolean drop, dropped;
  /* observed */
  int seen[TB + 2], calls, destroyed;
  /* model */
  gboolean evaluated; int result; int mseen[TB + 2], mcalls;
} Node;
typedef struct Tree {
  Node node[TN]; int nn;
  DexPromise *prom[TN * TB + TN]; int pout[TN * TB + TN], np;
  gboolean settle[TN * TB + TN];
  guint threads;
  int order[TN * TB + TN];
  gboolean mt;
} Tree;

static int
model_eval (Tree *t, int id)
{
  Node *n = &t->node[id];
  int cur, k = 0;
  if (n->evaluated) return n->result;
  n->evaluated = TRUE; n->result = V_PENDING; n->mcalls = 0;
  if (n->source)
    {
      n->result = n->prom < 0 ? n->n : t->settle[n->prom] ? t->pout[n->prom] : V_PENDING;
      return n->result;
    }
  cur = model_eval (t, n->parent);
  for (;;)
    {
      int r;
      gboolean applies;
      if (cur == V_PENDING) break;
      applies = (n->kind & ((cur & 1) ? 2 : 1)) != 0;
      if (!applies) break;
      n->mseen[n->mcalls++] = cur;
      if (k >= n->nb) break;                      /* returns NULL: keeps cur */
      switch (n->beh[k].what)
        {
        case B_NULL: goto out;
        case B_STATIC: r = n->beh[k].n; break;
        case B_PROMISE: r = t->settle[n->beh[k].n] ? t->pout[n->beh[k].n] : V_PENDING; break;
        case B_SAME: r = cur; break;
        default: r = model_eval (t, n->beh[k].node); break;
        }
      k++;
      cur = r;
      if (!(n->kind & 4)) break;
    }
out:
  n->result = cur;
  return cur;
}

static DexFuture *
tree_cb (DexFuture *f, gpointer data)
{
  Node *n = data;
  Tree *t = n->t;
  int k = n->calls++;
  int o = v_out_read (f, "callback");
  if (n->destroyed) v_fail ("callback-after-destroy", "callback ran after its data was destroyed");
  if (o == V_PENDING) v_fail ("told-too-early", "callback got a pending future");
  if (k >= TB + 1) v_fail ("callback-count", "callback of node %d ran %d times", n->id, n->calls);
  n->seen[k] = o;
  if (k >= n->nb) return NULL;
  switch (n->beh[k].what)
    {
    case B_NULL: return NULL;
    case B_STATIC: return v_out_static (n->beh[k].n);
    case B_PROMISE: return dex_ref (DEX_FUTURE (t->prom[n->beh[k].n]));
    case B_SAME: return dex_ref (f);
    default: return dex_ref (t->node[n->beh[k].node].f);
    }
}
static void tree_destroy (gpointer data) { Node *n = data; n->destroyed++; }

static int
tree_promise (Tree *t, int n)
{
  t->prom[t->np] = dex_promise_new ();
  t->pout[t->np] = n;
  t->settle[t->np] = v_chance (&v_rng, 92);
  return t->np++;
}

static void
tree_thread (guint idx, VRng *rng, gpointer data)
{
  Tree *t = data;
  for (int i = 0; i < t->np; i++)
    if (i % t->threads == idx && t->settle[t->order[i]])
      { v_noise_point (); v_out_complete (t->prom[t->order[i]], t->pout[t->order[i]], v_chance (rng, 50)); }
}

static void
tree_make_node (Tree *t, int i)
{
  Node *n = &t->node[i];
  DexFuture *p;
  if (n->source) { n->f = n->prom < 0 ? v_out_static (n->n) : dex_ref (DEX_FUTURE (t->prom[n->prom])); return; }
  p = dex_ref (t->node[n->parent].f);
  switch (n->kind)
    {
    case 1: n->f = dex_future_then (p, tree_cb, n, tree_destroy); break;
    case 2: n->f = dex_future_catch (p, tree_cb, n, tree_destroy); break;
    case 3: n->f = dex_future_finally (p, tree_cb, n, tree_destroy); break;
    case 5: n->f = dex_future_then_loop (p, tree_cb, n, tree_destroy); break;
    case 6: n->f = dex_future_catch_loop (p, tree_cb, n, tree_destroy); break;
    default: n->f = dex_future_finally_loop (p, tree_cb, n, tree_destroy); break;
    }
}

typedef struct { Tree *t; } TreeCond;
static gboolean
tree_done (gpointer data)
{
  Tree *t = data;
  for (int i = 0; i < t->nn; i++)
    if (!t->node[i].dropped && t->node[i].result != V_PENDING && dex_future_is_pending (t->node[i].f)) return FALSE;
  return TRUE;
}

static void
tree_run (gboolean mt)
{
  static const int kinds[] = { 1, 2, 3, 5, 6, 7 };
  Tree *t = g_new0 (Tree, 1);
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live (), calls = 0, base;
  uint64_t sig = mt;
  int next = 0;

  t->mt = mt;
  t->nn = 4 + v_below (&v_rng, TN - 4);
  base = 1 + v_below (&v_rng, 3);
  for (int i = 0; i < t->nn; i++)
    {
      Node *n = &t->node[i];
      n->t = t; n->id = i; n->source = i < base;
      if (n->source)
        {
          n->n = v_below (&v_rng, 600);
          n->prom = v_chance (&v_rng, 25) ? -1 : tree_promise (t, n->n);
          continue;
        }
      n->parent = v_chance (&v_rng, 60) ? i - 1 : (int)v_below (&v_rng, i);
      n->kind = kinds[v_below (&v_rng, 6)];
      n->nb = v_below (&v_rng, TB + 1);
      for (int k = 0; k < n->nb; k++)
        {
          Beh *b = &n->beh[k];
          guint r = v_below (&v_rng, 100);
          b->what = r < 15 ? B_NULL : r < 45 ? B_STATIC : r < 75 ? B_PROMISE : r < 87 ? B_SAME : B_NODE;
          b->n = v_below (&v_rng, 600);
          if (b->what == B_PROMISE) b->n = tree_promise (t, b->n);
          b->node = v_below (&v_rng, i);
        }
      n->drop = v_chance (&v_rng, 12);
    }
  for (int i = 0; i < t->np; i++) t->order[i] = i;
  for (int i = t->np - 1; i > 0; i--) { int j = v_below (&v_rng, i + 1), x = t->order[i]; t->order[i] = t->order[j]; t->order[j] = x; }
  for (int i = 0; i < t->nn; i++) model_eval (t, i);

  if (!mt)
    {
      /* construction, completion, dropping and main loop turns in one random order */
      int si = 0;
      while (next < t->nn || si < t->np)
        {
          guint r = v_below (&v_rng, 100);
          if (r < 55 && next < t->nn) tree_make_node (t, next++);
          else if (r < 85 && si < t->np)
            {
              int i = t->order[si++];
              if (t->settle[i]) v_out_complete (t->prom[i], t->pout[i], v_chance (&v_rng, 50));
            }
          else g_main_context_iteration (NULL, FALSE);
        }
    }
  else
    {
      for (; next < t->nn; next++) tree_make_node (t, next);
      t->threads = 1 + v_below (&v_rng, 3);
      v_par_ctx (t->threads, tree_thread, t);
    }
  for (int i = 0; i < t->nn; i++)
    if (t->node[i].drop)
      {
        /* others may still return it from a callback */
        gboolean used = FALSE;
        for (int j = 0; j < t->nn; j++) for (int k = 0; k < t->node[j].nb; k++) if (t->node[j].beh[k].what == B_NODE && t->node[j].beh[k].node == i) used = TRUE;
        if (!used) { t->node[i].dropped = TRUE; dex_clear (&t->node[i].f); }
      }
  v_run_until (tree_done, t, "futures of the callback tree to settle");
  v_drain ();
  for (int i = 0; i < t->nn; i++)
    {
      Node *n = &t->node[i];
      if (!n->dropped)
        {
          int got = v_out_read (n->f, "node");
          v_check (got == n->result, "wrong-outcome", "node %d kind %d on %s settled as %s, documented outcome %s", i, n->kind, n->source ? "-" : v_out_str (t->node[n->parent].result), v_out_str (got), v_out_str (n->result));
          v_check (n->calls == n->mcalls, "callback-count", "node %d kind %d on %s: callback ran %d times, documented %d", i, n->kind, n->source ? "-" : v_out_str (t->node[n->parent].result), n->calls, n->mcalls);
        }
      v_check (n->calls <= n->mcalls, "callback-count", "node %d kind %d: callback ran %d times, at most %d documented", i, n->kind, n->calls, n->mcalls);
      for (int k = 0; k < n->calls; k++)
        v_check (n->seen[k] == n->mseen[k], "callback-saw", "node %d call %d saw %s, documented %s", i, k, v_out_str (n->seen[k]), v_out_str (n->mseen[k]));
      calls += n->calls;
      sig = v_hash_add (sig, n->kind * 64 + n->calls * 4 + (n->result == V_PENDING ? 2 : (n->result & 1)));
      v_eval (2 + n->calls);
    }
  for (int i = t->nn - 1; i >= 0; i--) dex_clear (&t->node[i].f);
  for (int i = 0; i < t->np; i++) dex_clear (&t->prom[i]);
  v_drain ();
  v_expect_live (l0, "callback tree");
  for (int i = 0; i < t->nn; i++)
    if (!t->node[i].source) v_check (t->node[i].destroyed == 1, "destroy-count", "user data of node %d destroyed %d times", i, t->node[i].destroyed);
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "boxes %d objects %d left", v_box_live () - box0, v_obj_live () - obj0);
  v_event (calls); v_sig (sig);
  v_sample ("%d nodes, %d promises, %d callback runs, every outcome and count as documented", t->nn, t->np, calls);
  g_free (t);
}
static void s_tree (void) { tree_run (FALSE); }
static void s_tree_mt (void) { tree_run (TRUE); }

/* long loops and long chains: no limit, no missing step */
typedef struct { int n, limit, mode; DexPromise *p; int destroyed; int max_depth, depth; } Loop;
static DexFuture *
loop_cb (DexFuture *f, gpointer data)
{
  Loop *l = data;
  DexFuture *r;
  if (++l->depth > l->max_depth) l->max_depth = l->depth;
  l->n++;
  if (l->n >= l->limit) r = (l->mode & 1) ? NULL : v_out_static ((l->mode & 2) ? 200 : 201);
  else if (l->mode & 4 && l->n % 7 == 0)
    {
      DexPromise *p = dex_promise_new ();
      v_out_complete (p, (l->mode & 2) ? 31 : 30, TRUE);
      r = DEX_FUTURE (p);
    }
  else r = v_out_static ((l->mode & 2) ? 11 : 10);
  l->depth--;
  return r;
}
static DexFuture *count_cb (DexFuture *f, gpointer d) { ++*(int *)d; return NULL; }
static DexFuture *count_same_cb (DexFuture *f, gpointer d) { ++*(int *)d; return dex_ref (f); }
static void loop_destroy (gpointer d) { ((Loop *)d)->destroyed++; }
static void
s_long (void)
{
  gint64 l0 = v_live ();
  Loop l = { .limit = 1 + v_below (&v_rng, 1500), .mode = v_below (&v_rng, 8) };
  DexPromise *p = dex_promise_new ();
  DexFuture *f;
  /* now and then a chain no stack has room for */
  gboolean huge = v_chance (&v_rng, 4);
  int n = huge ? 50000 + (int) v_below (&v_rng, 50000) : 1 + (int) v_below (&v_rng, 300), count = 0, want, got;
  gboolean rej = l.mode & 2;
  f = rej ? dex_future_catch_loop (dex_ref (p), loop_cb, &l, loop_destroy) : dex_future_then_loop (dex_ref (p), loop_cb, &l, loop_destroy);
  for (int i = 0; i < n; i++) f = dex_future_finally (f, huge || v_chance (&v_rng, 50) ? count_same_cb : count_cb, &count, NULL);
  v_out_complete (p, rej ? 11 : 10, TRUE);
  v_run_until_settled (f, "long loop");
  got = v_out_read (f, "loop");
  /* NULL on the last run keeps what that run was given */
  if (l.mode & 1) want = l.limit == 1 ? (rej ? 11 : 10) : ((l.mode & 4) && (l.limit - 1) % 7 == 0 ? (rej ? 31 : 30) : (rej ? 11 : 10));
  else want = rej ? 200 : 201;
  v_check (l.n == l.limit, "callback-count", "loop ran %d times, documented %d", l.n, l.limit);
  v_check (got == want, "wrong-outcome", "loop settled as %s, documented %s (mode %d)", v_out_str (got), v_out_str (want), l.mode);
  v_check (count == n, "callback-count", "%d of %d chained callbacks ran", count, n);
  dex_unref (f); dex_unref (p);
  v_drain ();
  v_expect_live (l0, "long loop");
  v_check (l.destroyed == 1, "destroy-count", "loop data destroyed %d times", l.destroyed);
  v_eval (4); v_event (l.n + n); v_sigf ("long %d %d %d", l.limit, l.mode, n); v_count ("loop_runs", l.n);
}

/* ================================================================ C04: where callbacks run */
#define WN 24
typedef struct WB {
  struct Where *w;
  DexFuture *f;
  DexScheduler *sched; GThread *thread;   /* where attached */
  int kind, src, beh, attached;
  int calls, destroyed, busy;
  gboolean on_pool, drop, nested;
  DexFuture *inner;                       /* nested block attached from the callback */
  struct WB *sub;
} WB;
typedef struct Where {
  DexPromise *p[6]; int out[6]; gboolean complete[6];
  DexPromise *later[WN];
  WB b[WN], sub[WN]; int nb;
  int posted, done;
  int pool_calls, main_calls, foreign;
} Where;

static DexFuture *
wb_cb (DexFuture *f, gpointer data)
{
  WB *b = data;
  Where *w = b->w;
  if (dex_scheduler_get_thread_default () != b->sched) v_fail ("wrong-scheduler", "callback attached on scheduler %p (%s) runs on %p", b->sched, b->on_pool ? "pool worker" : "main", dex_scheduler_get_thread_default ());
  if (g_thread_self () != b->thread) v_fail ("wrong-thread", "callback attached on thread %p runs on %p", b->thread, g_thread_self ());
  if (g_atomic_int_get (&b->destroyed)) v_fail ("callback-after-destroy", "callback ran after its data was destroyed");
  g_atomic_int_inc (&b->calls);
  g_atomic_int_inc (b->on_pool ? &w->pool_calls : &w->main_calls);
  v_noise_point ();
  if (b->sub && g_atomic_int_get (&b->sub->attached) == 0)
    {
      WB *s = b->sub;
      s->sched = dex_scheduler_get_thread_default (); s->thread = g_thread_self (); s->on_pool = b->on_pool;
      g_atomic_int_set (&s->attached, 1);
      s->f = dex_future_finally (dex_ref (DEX_FUTURE (w->p[s->src])), wb_cb, s, (GDestroyNotify) NULL);
      g_atomic_int_set (&s->attached, 2);
    }
  switch (b->beh)
    {
    case 0: return NULL;
    case 1: return v_out_static (v_below (&(VRng) { b->src }, 100));
    default: return dex_ref (DEX_FUTURE (w->later[b - w->b]));
    }
}
static void
wb_destroy (gpointer data)
{
  WB *b = data;
  if (g_atomic_int_add (&b->destroyed, 1) != 0) v_fail ("destroyed-twice", "user data destroyed twice");
}
static void
wb_attach (gpointer data)
{
  WB *b = data;
  Where *w = b->w;
  DexFuture *f, *src = dex_ref (DEX_FUTURE (w->p[b->src]));
  b->sched = dex_scheduler_get_thread_default (); b->thread = g_thread_self ();
  if (b->sched == NULL) v_fail ("no-scheduler", "work item without a default scheduler");
  switch (b->kind)
    {
    case 0: f = dex_future_then (src, wb_cb, b, wb_destroy); break;
    case 1: f = dex_future_catch (src, wb_cb, b, wb_destroy); break;
    default: f = dex_future_finally (src, wb_cb, b, wb_destroy); break;
    }
  b->f = f;
  g_atomic_int_set (&b->attached, 1);
  g_atomic_int_inc (&w->done);
}
static void
where_complete_item (gpointer data)
{
  gpointer *d = data;
  Where *w = d[0];
  int i = GPOINTER_TO_INT (d[1]);
  v_out_complete (w->p[i], w->out[i], TRUE);
  g_atomic_int_inc (&w->done);
  g_free (d);
}
static void
where_thread (guint idx, VRng *rng, gpointer data)
{
  Where *w = data;
  if (idx == 0)
    {
      for (int i = 0; i < 6; i++)
        if (w->complete[i])
          {
            v_noise_point ();
            if (v_chance (rng, 60)) v_out_complete (w->p[i], w->out[i], TRUE);
            else
              {
                gpointer *d = g_new (gpointer, 2); d[0] = w; d[1] = GINT_TO_POINTER (i);
                g_atomic_int_inc (&w->posted);
                dex_scheduler_push (v_chance (rng, 50) ? pool () : dex_scheduler_get_default (), where_complete_item, d);
              }
          }
    }
  else if (idx == 1)
    for (int i = 0; i < w->nb; i++) { v_noise_point (); if (w->later[i]) v_out_complete (w->later[i], 40, TRUE); }
  else
    for (int i = 0; i < w->nb; i++)
      if (w->b[i].drop)
        {
          for (int k = 0; k < 50 && !g_atomic_int_get (&w->b[i].attached); k++) g_thread_yield ();
          if (g_atomic_int_get (&w->b[i].attached)) { DexFuture *f = g_steal_pointer (&w->b[i].f); dex_clear (&f); }
        }
}
static int
where_want_calls (Where *w, WB *b)
{
  int o = w->out[b->src];
  if (!w->complete[b->src]) return 0;
  return b->kind == 2 || (b->kind == 0 && !(o & 1)) || (b->kind == 1 && (o & 1));
}
static gboolean
where_done (gpointer data)
{
  Where *w = data;
  if (g_atomic_int_get (&w->done) < g_atomic_int_get (&w->posted)) return FALSE;
  for (int i = 0; i < w->nb; i++)
    {
      WB *b = &w->b[i];
      if (!b->drop && w->complete[b->src] && dex_future_is_pending (b->f)) return FALSE;
      if (b->sub && g_atomic_int_get (&b->sub->attached) == 2 && w->complete[b->sub->src] && dex_future_is_pending (b->sub->f)) return FALSE;
    }
  return TRUE;
}
static gboolean where_destroyed (gpointer data) { Where *w = data; for (int i = 0; i < w->nb; i++) if (!g_atomic_int_get (&w->b[i].destroyed)) return FALSE; return TRUE; }
static void
s_where (void)
{
  Where *w = g_new0 (Where, 1);
  gint64 l0;
  uint64_t sig = 0;
  int calls = 0;
  pool ();
  l0 = v_base ();
  w->nb = 4 + v_below (&v_rng, WN - 4);
  for (int i = 0; i < 6; i++) { w->p[i] = dex_promise_new (); w->out[i] = v_below (&v_rng, 300); w->complete[i] = v_chance (&v_rng, 85); }
  for (int i = 0; i < w->nb; i++)
    {
      WB *b = &w->b[i];
      b->w = w; b->src = v_below (&v_rng, 6); b->kind = v_below (&v_rng, 3); b->beh = v_below (&v_rng, 3);
      b->on_pool = v_chance (&v_rng, 50); b->drop = v_chance (&v_rng, 20);
      w->later[i] = dex_promise_new ();
      if (v_chance (&v_rng, 25)) { b->sub = &w->sub[i]; b->sub->w = w; b->sub->src = v_below (&v_rng, 6); b->sub->kind = 2; b->sub->beh = 0; }
      w->posted++;
      if (b->on_pool) dex_scheduler_push (pool (), wb_attach, b);
      else wb_attach (b);
    }
  if (v_chance (&v_rng, 60)) v_run_until_count (&w->done, w->posted, "attachment on the pool");
  v_par_ctx (3, where_thread, w);
  v_run_until (where_done, w, "callbacks on their schedulers");
  for (int i = 0; i < w->nb; i++)
    {
      WB *b = &w->b[i];
      int c = g_atomic_int_get (&b->calls), want = where_want_calls (w, b);
      v_check (b->drop ? c <= want : c == want, "callback-count", "callback kind %d on %s ran %d times (%s)", b->kind, v_out_str (w->out[b->src]), c, b->drop ? "released" : "kept");
      calls += c; sig = v_hash_add (sig, b->kind * 16 + c * 4 + b->on_pool);
      v_eval (2);
    }
  for (int i = 0; i < w->nb; i++) dex_clear (&w->b[i].f);
  v_run_until (where_destroyed, w, "user data to be destroyed");
  for (int i = 0; i < w->nb; i++) { dex_clear (&w->sub[i].f); dex_clear (&w->later[i]); }
  for (int i = 0; i < 6; i++) dex_unref (w->p[i]);
  v_drain ();
  v_expect_live (l0, "callbacks on schedulers");
  for (int i = 0; i < w->nb; i++) v_check (g_atomic_int_get (&w->b[i].destroyed) == 1, "destroy-count", "user data destroyed %d times", w->b[i].destroyed);
  v_event (calls); v_sig (sig); v_count ("callbacks_main", w->main_calls); v_count ("callbacks_pool", w->pool_calls);
  v_sample ("%d callbacks attached on main/pool, %d ran on main, %d on pool workers, each where it was attached", w->nb, w->main_calls, w->pool_calls);
  g_free (w);
}

/* callbacks that settle the next future from within: past the recursion limit they
 * are deferred, and must still run where they were attached, each once */
#define DN 14
typedef struct Deep { DexPromise *p[DN + 1]; DexFuture *f[DN]; DexScheduler *sched; GThread *thread; int n, calls[DN], destroyed[DN], mode; gboolean on_pool; int *started, *finished; } Deep;
typedef struct { Deep *d; int i; } DeepItem;
static DexFuture *
deep_cb (DexFuture *f, gpointer data)
{
  DeepItem *it = data;
  Deep *d = it->d;
  if (dex_scheduler_get_thread_default () != d->sched || g_thread_self () != d->thread)
    v_fail ("wrong-scheduler", "callback %d of a chain attached on scheduler %p (%s) runs on %p", it->i, d->sched, d->on_pool ? "pool worker" : "main", dex_scheduler_get_thread_default ());
  if (g_atomic_int_get (&d->destroyed[it->i])) v_fail ("callback-after-destroy", "callback ran after its data was destroyed");
  if (g_atomic_int_add (&d->calls[it->i], 1) != 0) v_fail ("callback-count", "callback ran twice");
  v_noise_point ();
  v_out_complete (d->p[it->i + 1], (d->mode >> (it->i % 3)) & 1 ? 21 : 20, TRUE);
  return (d->mode & 8) ? v_out_static (30) : NULL;
}
static void
deep_destroy (gpointer data)
{
  DeepItem *it = data;
  if (g_atomic_int_add (&it->d->destroyed[it->i], 1) != 0) v_fail ("destroyed-twice", "user data destroyed twice");
  g_free (it);
}
static void
deep_start (gpointer data)
{
  Deep *d = data;
  d->sched = dex_scheduler_get_thread_default (); d->thread = g_thread_self ();
  for (int i = 0; i < d->n; i++)
    {
      DeepItem *it = g_new (DeepItem, 1);
      it->d = d; it->i = i;
      d->f[i] = (d->mode & 16) ? dex_future_finally_loop (dex_ref (d->p[i]), (DexFutureCallback)deep_cb, it, deep_destroy) : dex_future_finally (dex_ref (d->p[i]), deep_cb, it, deep_destroy);
    }
  g_atomic_int_inc (d->started);
  if (d->mode & 4) v_out_complete (d->p[0], 20, TRUE);
}
static void deep_kick (gpointer data) { Deep *d = data; v_out_complete (d->p[0], 20, TRUE); }
static void
deep_thread (guint idx, VRng *rng, gpointer data)
{
  Deep *d = (Deep *)data;
  for (int k = 0; k < 6; k++)
    if (!(d[k].mode & 4) && (guint)(k % 2) == idx)
      {
        v_noise_point ();
        if (v_chance (rng, 50)) deep_kick (&d[k]);
        else dex_scheduler_push (v_chance (rng, 70) ? pool () : dex_scheduler_get_default (), deep_kick, &d[k]);
      }
}
static gboolean
deep_done (gpointer data)
{
  Deep *d = data;
  for (int k = 0; k < 6; k++) for (int i = 0; i < d[k].n; i++) if (dex_future_is_pending (d[k].f[i])) return FALSE;
  return TRUE;
}
static void
s_deep (void)
{
  Deep *d = g_new0 (Deep, 6);
  gint64 l0;
  int started = 0, npool = 0, calls = 0;
  uint64_t sig = 0;
  pool ();
  l0 = v_base ();
  for (int k = 0; k < 6; k++)
    {
      d[k].n = 3 + v_below (&v_rng, DN - 2); d[k].mode = v_below (&v_rng, 16); d[k].on_pool = v_chance (&v_rng, 75); d[k].started = &started;
      for (int i = 0; i <= d[k].n; i++) d[k].p[i] = dex_promise_new ();
      npool += d[k].on_pool; sig = v_hash_add (sig, d[k].n * 64 + d[k].mode * 2 + d[k].on_pool);
    }
  for (int k = 0; k < 6; k++) if (d[k].on_pool) dex_scheduler_push (pool (), deep_start, &d[k]); else deep_start (&d[k]);
  v_run_until_count (&started, 6, "chains to be attached");
  v_par_ctx (2, deep_thread, d);
  v_run_until (deep_done, d, "callbacks past the recursion limit");
  for (int k = 0; k < 6; k++)
    {
      for (int i = 0; i < d[k].n; i++)
        {
          v_check (d[k].calls[i] == 1, "callback-count", "callback %d of a chain of %d ran %d times", i, d[k].n, d[k].calls[i]);
          v_check (v_out_read (d[k].f[i], "chain") == ((d[k].mode & 8) ? 30 : i == 0 ? 20 : ((d[k].mode >> ((i - 1) % 3)) & 1) ? 21 : 20), "wrong-outcome", "callback %d of a chain of %d left %s", i, d[k].n, v_out_str (v_out_read (d[k].f[i], "chain")));
          calls++;
        }
      for (int i = 0; i < d[k].n; i++) dex_unref (d[k].f[i]);
      for (int i = 0; i <= d[k].n; i++) dex_unref (d[k].p[i]);
    }
  v_drain ();
  v_expect_live (l0, "chains of callbacks");
  for (int k = 0; k < 6; k++) for (int i = 0; i < d[k].n; i++) v_check (g_atomic_int_get (&d[k].destroyed[i]) == 1, "destroy-count", "user data destroyed %d times", d[k].destroyed[i]);
  v_eval (calls * 2); v_event (calls); v_sig (sig); v_count ("chained_callbacks", calls);
  v_sample ("6 chains (%d on pool workers), %d callbacks settling each other, all ran where attached", npool, calls);
  g_free (d);
}

/* chains without returned futures, and chains dropped while pending: these
 * recurse once per step (known findings, see known-findings.txt)
 */
static void
s_long_pass (void)
{
  DexPromise *p = dex_promise_new ();
  DexFuture *f = dex_ref (DEX_FUTURE (p));
  int n = 300000, count = 0;
  for (int i = 0; i < n; i++) f = dex_future_finally (f, count_cb, &count, NULL);
  dex_promise_resolve_int (p, 1);
  v_run_until_settled (f, "long chain of callbacks that return nothing");
  v_check (count == n, "callback-count", "%d of %d chained callbacks ran", count, n);
  dex_unref (f); dex_unref (p);
  v_eval (1); v_event (n); v_sig (n);
}
static void
s_long_drop (void)
{
  DexPromise *p = dex_promise_new ();
  DexFuture *f = dex_ref (DEX_FUTURE (p));
  gint64 l0 = v_live ();
  int n = 300000, count = 0;
  for (int i = 0; i < n; i++) f = dex_future_finally (f, count_cb, &count, NULL);
  dex_unref (f);
  v_check (v_live () == l0, "leak", "objects of a dropped chain left");
  dex_unref (p);
  v_eval (1); v_event (n); v_sig (n);
}

static const VScenario scenarios[] = {
  { "long-pass", s_long_pass, 1 },
  { "long-drop", s_long_drop, 1 },
  { "settle", s_settle, 100 },
  { "seq", s_seq, 100 },
  { "attach", s_attach, 100 },
  { "nested", s_nested, 100 },
  { "crowd", s_crowd, 100 },
  { "tree", s_tree, 100 },
  { "tree-mt", s_tree_mt, 100 },
  { "long", s_long, 100 },
  { "where", s_where, 100 },
  { "deep", s_deep, 100 },
  { 0 }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
