/* C05-C07, C29: combined futures, withdrawal of interest, delayed futures */
#include "vout.h"
#include "dex-scheduler-private.h"

enum { F_ALL, F_ANY, F_FIRST, F_RACE };
static const char *fname[] = { "all", "any", "first", "all_race" };
#define MAXIN 48

static DexFuture *
make_set (int form, DexFuture **in, guint n, gboolean varargs)
{
  if (!varargs)
    switch (form)
      {
      case F_ALL: return dex_future_allv (in, n);
      case F_ANY: return dex_future_anyv (in, n);
      case F_FIRST: return dex_future_firstv (in, n);
      default: return dex_future_all_racev (in, n);
      }
  else
    {
      DexFuture *a[MAXIN] = { 0 };
      for (guint i = 0; i < n; i++) a[i] = dex_ref (in[i]);
#define ARGS a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], \
  a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39], \
  a[40], a[41], a[42], a[43], a[44], a[45], a[46], a[47], NULL
      switch (form)
        {
        case F_ALL: return dex_future_all (ARGS);
        case F_ANY: return dex_future_any (ARGS);
        case F_FIRST: return dex_future_first (ARGS);
        default: return dex_future_all_race (ARGS);
        }
    }
}

/* reference: outcome of a set given the outcomes of its inputs (V_PENDING allowed) and the
 * order in which the settled ones became known; V_PENDING while undecided */
static int
ref_outcome (int form, const int *out, const int *slot_order, guint n_known, guint n)
{
  guint rej = 0;
  for (guint k = 0; k < n_known; k++)
    {
      int o = out[slot_order[k]];
      gboolean r = o & 1;
      if (r) rej++;
      if (form == F_FIRST) return o;
      if (form == F_ANY && !r) return o;
      if (form == F_RACE && r) return o;
    }
  if (n_known < n) return V_PENDING;
  switch (form)
    {
    case F_ALL: return rej ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : V_OUT_TRUE;
    case F_ANY: return V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED;
    default: return V_OUT_TRUE;
    }
}

typedef struct { DexFuture *f; int want; int calls; } Probe;
static DexFuture *
probe_cb (DexFuture *f, gpointer data)
{
  Probe *p = data;
  p->calls++;
  v_check (v_out_read (f, "probe") != V_PENDING, "told-early", "callback ran for a pending combined future");
  return NULL;
}

static void
check_accessors (DexFuture *set, DexFuture **in, const int *out, guint n, const char *where)
{
  DexFutureSet *s = DEX_FUTURE_SET (set);
  v_check (dex_future_set_get_size (s) == n, "set-size", "%s: size %u of %u", where, dex_future_set_get_size (s), n);
  for (guint i = 0; i < n; i++)
    {
      GError *e = NULL;
      const GValue *v;
      v_check (dex_future_set_get_future_at (s, i) == in[i], "set-order", "%s: input %u of %u is not the one given", where, i, n);
      v = dex_future_set_get_value_at (s, i, &e);
      v_check ((v != NULL) != (e != NULL), "set-value", "%s: input %u: value %p error %p", where, i, v, e);
      if (out[i] == V_PENDING)
        v_check (v == NULL && g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "set-value", "%s: pending input %u reports %s", where, i, e ? e->message : "a value");
      else
        {
          int got = v ? v_out_of_value (v, where) : v_out_of_error (e, where);
          v_check (got == out[i], "set-value", "%s: input %u reports %s, settled as %s", where, i, v_out_str (got), v_out_str (out[i]));
        }
      g_clear_error (&e);
    }
}

/* ================================================================ C05 */
static void
s_order (void)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  guint n = v_chance (&v_rng, 70) ? 1 + v_below (&v_rng, 6) : 1 + v_below (&v_rng, MAXIN - 1);
  int form = v_below (&v_rng, 4);
  gboolean varargs = v_chance (&v_rng, 50);
  guint rejpct = v_below (&v_rng, 5) * 25, prepct = v_below (&v_rng, 4) * 20, reppct = v_chance (&v_rng, 30) ? 30 : 0;
  DexFuture *in[MAXIN] = { 0 }, *uniq[MAXIN];
  int out[MAXIN], want_final[MAXIN], which[MAXIN], order[MAXIN * 2], uout[MAXIN], nu = 0;
  guint known = 0, todo[MAXIN], ntodo = 0;
  DexFuture *set;
  Probe *pr = g_new0 (Probe, 2);
  int want;
  uint64_t sig = v_hash_add (form * 2 + varargs, n);

  for (guint i = 0; i < n; i++)
    {
      if (nu && v_chance (&v_rng, reppct)) { which[i] = v_below (&v_rng, nu); in[i] = uniq[which[i]]; continue; }
      which[i] = nu;
      uout[nu] = 20 * (int)(1 + i) + 2 * (int)v_below (&v_rng, 10);
      if (v_chance (&v_rng, rejpct)) uout[nu] |= 1;
      if (v_chance (&v_rng, prepct))
        {
          want_final[nu] = uout[nu];
          if (v_chance (&v_rng, 50)) uniq[nu] = v_out_static (uout[nu]);
          else { uniq[nu] = DEX_FUTURE (dex_promise_new ()); v_out_complete (DEX_PROMISE (uniq[nu]), uout[nu], TRUE); }
        }
      else { want_final[nu] = V_PENDING; uniq[nu] = DEX_FUTURE (dex_promise_new ()); todo[ntodo++] = nu; }
      in[i] = uniq[nu++];
    }
  for (guint i = 0; i < n; i++) { out[i] = want_final[which[i]]; if (out[i] != V_PENDING) order[known++] = i; }
  set = make_set (form, in, n, varargs);
  want = ref_outcome (form, out, order, known, n);
  pr->f = dex_future_finally (dex_ref (set), probe_cb, pr, NULL);
  for (guint step = 0; ; step++)
    {
      int got = v_out_read (set, fname[form]);
      guint k;
      v_check (got == want, "wrong-outcome", "%s of %u inputs, %u settled: %s, documented %s", fname[form], n, known, v_out_str (got), v_out_str (want));
      v_check (pr->calls == (want != V_PENDING), "notify-count", "%s: dependent told %d times, set is %s", fname[form], pr->calls, v_out_str (want));
      check_accessors (set, in, out, n, fname[form]);
      sig = v_hash_add (sig, got == V_PENDING ? 0 : 1 + (got & 1));
      v_eval (2 + n); v_event (1);
      if (!ntodo || v_chance (&v_rng, 2)) break;
      k = v_below (&v_rng, ntodo);
      { guint u = todo[k]; todo[k] = todo[--ntodo];
        /* now and then at the same time as a dependent leaves */
        v_out_complete (DEX_PROMISE (uniq[u]), uout[u], v_chance (&v_rng, 50));
        for (guint i = 0; i < n; i++) if (which[i] == (int)u) { out[i] = uout[u]; order[known++] = i; }
        if (want == V_PENDING) want = ref_outcome (form, out, order, known, n); }
    }
  v_sig (sig);
  v_sample ("%s%s of %u inputs (%d distinct, %u settled) -> %s", fname[form], varargs ? "" : "v", n, nu, known, v_out_str (want));
  dex_unref (pr->f); dex_unref (set);
  for (int i = 0; i < nu; i++) dex_unref (uniq[i]);
  v_drain ();
  v_expect_live (l0, fname[form]);
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left: %d boxed, %d objects", v_box_live () - box0, v_obj_live () - obj0);
  g_free (pr);
}

/* sets of hundreds and thousands of inputs */
static DexFuture *
make_wide (int form, DexFuture **in, guint n, gboolean varargs)
{
  DexFuture *a[301] = { 0 };
  if (!varargs) return make_set (form, in, n, FALSE);
  for (guint i = 0; i < n; i++) a[i] = dex_ref (in[i]);
#define W10(b) a[b], a[b + 1], a[b + 2], a[b + 3], a[b + 4], a[b + 5], a[b + 6], a[b + 7], a[b + 8], a[b + 9]
#define W50(b) W10 (b), W10 (b + 10), W10 (b + 20), W10 (b + 30), W10 (b + 40)
#define WIDE W50 (0), W50 (50), W50 (100), W50 (150), W50 (200), W50 (250), NULL
  switch (form)
    {
    case F_ALL: return dex_future_all (WIDE);
    case F_ANY: return dex_future_any (WIDE);
    case F_FIRST: return dex_future_first (WIDE);
    default: return dex_future_all_race (WIDE);
    }
}
static void
s_wide (void)
{
  static const guint edge[] = { 49, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300 };
  static const guint big[] = { 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000 };
  static const guint huge[] = { 32767, 32768, 65535, 65536, 65537, 70000 };
  gint64 l0 = v_live ();
  guint n = v_chance (&v_rng, 6) ? huge[v_below (&v_rng, G_N_ELEMENTS (huge))] : v_chance (&v_rng, 30) ? big[v_below (&v_rng, G_N_ELEMENTS (big))] : edge[v_below (&v_rng, G_N_ELEMENTS (edge))];
  int form = v_below (&v_rng, 4), want;
  gboolean varargs = n <= 300 && v_chance (&v_rng, 50), repeat = n < 5000 && v_chance (&v_rng, 15);
  /* outcomes that leave it open to the end, mostly */
  gboolean odd = v_chance (&v_rng, 50);
  guint nodd = odd ? 1 + v_below (&v_rng, v_chance (&v_rng, 50) ? 3 : n) : 0, prepct = v_below (&v_rng, 3) * 30, nu = repeat ? 1 + v_below (&v_rng, 3) : n;
  DexFuture **in = g_new0 (DexFuture *, n), **uniq = g_new0 (DexFuture *, nu);
  int *uout = g_new (int, nu), *out = g_new (int, n), *order = g_new (int, n);
  guint *todo = g_new (guint, nu), ntodo = 0, known = 0, togo;
  Probe *pr = g_new0 (Probe, 1);
  DexFuture *set;
  for (guint i = 0; i < nu; i++) uout[i] = 20 * (int)(1 + i) + 2 * (int) v_below (&v_rng, 10) + (form == F_ANY);
  for (guint i = 0; i < nodd; i++) uout[v_below (&v_rng, nu)] ^= 1;
  for (guint i = 0; i < nu; i++)
    {
      uniq[i] = DEX_FUTURE (dex_promise_new_cancellable ());
      if (form != F_FIRST && v_chance (&v_rng, prepct)) v_out_complete (DEX_PROMISE (uniq[i]), uout[i], TRUE);
      else todo[ntodo++] = i;
    }
  for (guint i = 0; i < n; i++)
    {
      guint u = repeat ? (guint) v_below (&v_rng, nu) : i;
      in[i] = uniq[u];
      out[i] = dex_future_is_pending (uniq[u]) ? V_PENDING : uout[u];
      if (out[i] != V_PENDING) order[known++] = (int) i;
    }
  /* in order, the other way round, or at random */
  switch (v_below (&v_rng, 3))
    {
    case 0: for (guint i = 0; i < ntodo / 2; i++) { guint x = todo[i]; todo[i] = todo[ntodo - 1 - i]; todo[ntodo - 1 - i] = x; } break;
    case 1: for (guint i = ntodo; i > 1; i--) { guint j = v_below (&v_rng, i), x = todo[i - 1]; todo[i - 1] = todo[j]; todo[j] = x; } break;
    default: break;
    }
  set = make_wide (form, in, n, varargs);
  want = ref_outcome (form, out, order, known, n);
  pr->f = dex_future_finally (dex_ref (set), probe_cb, pr, NULL);
  togo = ntodo;
  for (guint step = 0; ; step++)
    {
      int got;
      if (step < 3 || togo < 3 || step % 4096 == 0 || v_chance (&v_rng, n < 1000 ? 20 : 1) || want == V_PENDING)
        {
          got = v_out_read (set, fname[form]);
          v_check (got == want, "wrong-outcome", "%s of %u inputs (%u distinct), %u settled: %s, documented %s", fname[form], n, nu, known, v_out_str (got), v_out_str (want));
          v_check (pr->calls == (want != V_PENDING), "notify-count", "%s: dependent told %d times, set is %s", fname[form], pr->calls, v_out_str (want));
          v_eval (2);
        }
      if (!togo) break;
      {
        guint u = todo[--togo];
        gboolean was = want != V_PENDING;
        if (was && v_chance (&v_rng, 30))
          v_check (g_cancellable_is_cancelled (dex_promise_get_cancellable (DEX_PROMISE (uniq[u]))), "not-cancelled", "%s of %u is decided, input %u is still wanted", fname[form], n, u);
        v_check (was || !g_cancellable_is_cancelled (dex_promise_get_cancellable (DEX_PROMISE (uniq[u]))), "cancelled-early", "%s of %u is undecided, input %u is cancelled", fname[form], n, u);
        v_out_complete (DEX_PROMISE (uniq[u]), uout[u], TRUE);
        if (!repeat) { out[u] = uout[u]; order[known++] = (int) u; }
        else for (guint i = 0; i < n; i++) if (in[i] == uniq[u]) { out[i] = uout[u]; order[known++] = (int) i; }
        if (!was)
          {
            int o = uout[u];
            if (form == F_FIRST || (form == F_ANY && !(o & 1)) || (form == F_RACE && (o & 1))) want = o;
            else if (known == n) want = ref_outcome (form, out, order, known, n);
            if (want != V_PENDING && v_chance (&v_rng, 50)) { step = 0; }
          }
        v_event (1);
      }
    }
  check_accessors (set, in, out, n, fname[form]);
  v_check (pr->calls == 1, "notify-count", "%s: dependent told %d times", fname[form], pr->calls);
  v_eval (n);
  v_sigf ("%d %u %u %u %d %d", form, n, nu, nodd, varargs, want & 1);
  v_sample ("%s%s of %u inputs (%u distinct, %u unlike the others) -> %s", fname[form], varargs ? "" : "v", n, nu, nodd, v_out_str (want));
  dex_unref (pr->f); dex_unref (set);
  for (guint i = 0; i < nu; i++) dex_unref (uniq[i]);
  g_free (pr); g_free (in); g_free (uniq); g_free (uout); g_free (out); g_free (order); g_free (todo);
  v_drain ();
  v_expect_live (l0, "wide sets");
}

/* sets of sets, every combination of forms */
typedef struct { DexFuture *f; int form, n, kid[6], known[6], nknown, out, is_leaf, told[6]; } Node;
static void
s_nested (void)
{
  gint64 l0 = v_live ();
  Node nd[24] = { 0 };
  int nn = 0, nl = 3 + v_below (&v_rng, 8), want[24];
  int perm[24];
  uint64_t sig = 0;
  for (int i = 0; i < nl; i++) { Node *x = &nd[nn++]; x->is_leaf = 1; x->out = V_PENDING; x->f = DEX_FUTURE (dex_promise_new ()); want[i] = 20 * (i + 1) + (v_chance (&v_rng, 40) ? 1 : 0); }
  /* a tree: every node is used by one parent, so that the order is defined */
  {
    int roots[24], nr = nl;
    for (int i = 0; i < nl; i++) roots[i] = i;
    while (nr > 1 && nn < 22)
      {
        int k = 1 + v_below (&v_rng, MIN (nr, 5));
        Node *x = &nd[nn];
        DexFuture *in[6];
        x->form = v_below (&v_rng, 4); x->n = k; x->out = V_PENDING;
        for (int j = 0; j < k; j++) { int p = v_below (&v_rng, nr); x->kid[j] = roots[p]; in[j] = nd[roots[p]].f; roots[p] = roots[--nr]; }
        x->f = make_set (x->form, in, k, v_chance (&v_rng, 50));
        roots[nr++] = nn++;
        sig = v_hash_add (sig, x->form * 8 + k);
      }
  }
  for (int i = 0; i < nl; i++) perm[i] = i;
  for (int i = nl - 1; i > 0; i--) { int j = v_below (&v_rng, i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  for (int s = 0; s < nl; s++)
    {
      v_out_complete (DEX_PROMISE (nd[perm[s]].f), want[perm[s]], TRUE);
      nd[perm[s]].out = want[perm[s]];
      for (int i = nl; i < nn; i++)
        {
          Node *x = &nd[i];
          int out[6];
          for (int j = 0; j < x->n; j++) { out[j] = nd[x->kid[j]].out; if (out[j] != V_PENDING && !x->told[j]) { x->told[j] = 1; x->known[x->nknown++] = j; } }
          if (x->out == V_PENDING) x->out = ref_outcome (x->form, out, x->known, x->nknown, x->n);
          v_check (v_out_read (x->f, "nested") == x->out, "wrong-outcome", "nested %s of %d: %s, documented %s", fname[x->form], x->n, v_out_str (v_out_read (x->f, "nested")), v_out_str (x->out));
          v_eval (1); sig = v_hash_add (sig, x->out == V_PENDING ? 0 : 1 + (x->out & 1));
        }
      v_event (1);
    }
  v_sig (sig);
  v_sample ("%d promises under %d nested sets", nl, nn - nl);
  for (int i = nn - 1; i >= 0; i--) dex_unref (nd[i].f);
  v_expect_live (l0, "nested sets");
}

/* ================================================================ C06 */
#define RS 24
typedef struct {
  int form; guint n, nthreads, nuniq;
  DexPromise *p[12]; DexFuture *in[12]; int out[12]; guint owner[12], seq[12];
  DexFuture *set[RS]; gboolean varargs;
} One;
typedef struct { One o[RS]; gboolean build_racing; _Atomic int built; guint nthreads; int reads; _Atomic int phase; } Race;

static void
race_reader (One *o, VRng *rng, int *reads)
{
  DexFuture *s = __atomic_load_n (&o->set[0], __ATOMIC_ACQUIRE);
  if (!s) return;
  if (dex_future_get_status (s) != DEX_FUTURE_STATUS_PENDING)
    {
      guint known = 0;
      ++*reads;
      for (guint i = 0; i < o->n; i++)
        {
          GError *e = NULL;
          const GValue *v;
          if (dex_future_set_get_future_at (DEX_FUTURE_SET (s), i) != o->in[i]) v_fail ("set-order", "%s: input %u is not the one given", fname[o->form], i);
          v = dex_future_set_get_value_at (DEX_FUTURE_SET (s), i, &e);
          if (v) { known++; if (v_out_of_value (v, "set value") != o->out[i]) v_fail ("set-value", "input %u reports %s", i, v_out_str (v_out_of_value (v, "set value"))); }
          else if (!g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING)) { known++; if (v_out_of_error (e, "set error") != o->out[i]) v_fail ("set-value", "input %u reports error %s", i, e->message); }
          g_clear_error (&e);
        }
      if (o->form == F_ALL && known < o->n) v_fail ("settled-early", "all() settled with %u of %u inputs readable", known, o->n);
      if (known == 0) v_fail ("settled-early", "%s() settled with no input readable", fname[o->form]);
      {
        int got = v_out_read (s, fname[o->form]);
        if (o->form == F_RACE && got == V_OUT_TRUE && known < o->n) v_fail ("settled-early", "all_race() resolved with %u of %u inputs readable", known, o->n);
        if (o->form == F_ANY && got == V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED && known < o->n) v_fail ("settled-early", "any() rejected with %u of %u inputs readable", known, o->n);
      }
    }
}

static void
race_thread (guint idx, VRng *rng, gpointer data)
{
  Race *c = data;
  int reads = 0;
  if (idx == c->nthreads)   /* builds and reads */
    {
      if (c->build_racing)
        for (guint k = 0; k < RS; k++)
          {
            One *o = &c->o[k];
            v_noise_point ();
            __atomic_store_n (&o->set[0], make_set (o->form, o->in, o->n, o->varargs), __ATOMIC_RELEASE);
          }
      for (guint r = 0; r < 3; r++) for (guint k = 0; k < RS; k++) race_reader (&c->o[k], rng, &reads);
      c->reads = reads;
      return;
    }
  for (guint k = 0; k < RS; k++)
    {
      One *o = &c->o[k];
      guint s = 0;
      for (guint i = 0; i < o->nuniq; i++)
        if (o->owner[i] == idx)
          {
            v_noise_point ();
            o->seq[i] = s++;
            v_out_complete (o->p[i], o->out[i], TRUE);
          }
      if (v_chance (rng, 30)) race_reader (o, rng, &reads);
    }
}

static void
s_race (void)
{
  Race *c = g_new0 (Race, 1);
  gint64 l0 = v_live ();
  uint64_t sig = 0;
  Probe *pr = g_new0 (Probe, RS);
  guint first_wins[8] = { 0 };
  c->nthreads = 2 + v_below (&v_rng, 3);
  c->build_racing = v_chance (&v_rng, 40);
  for (guint k = 0; k < RS; k++)
    {
      One *o = &c->o[k];
      guint rej = v_below (&v_rng, 5) * 25;
      o->form = v_below (&v_rng, 4); o->n = 1 + v_below (&v_rng, v_chance (&v_rng, 80) ? 5 : 12); o->varargs = v_chance (&v_rng, 50);
      for (guint i = 0; i < o->n; i++)
        if (o->nuniq && o->nuniq < i + 1 && v_chance (&v_rng, 10)) { guint w = v_below (&v_rng, o->nuniq); o->in[i] = o->in[w]; }
        else
          {
            guint u = o->nuniq++;
            o->p[u] = dex_promise_new (); o->owner[u] = v_below (&v_rng, c->nthreads);
            o->in[i] = DEX_FUTURE (o->p[u]);
          }
      /* outcomes by slot and by promise must agree */
      {
        int uo[12];
        for (guint u = 0; u < o->nuniq; u++) uo[u] = 20 * (int)(u + 1) + (v_chance (&v_rng, rej) ? 1 : 0);
        for (guint u = 0; u < o->nuniq; u++) o->out[u] = uo[u];
      }
      if (!c->build_racing) { o->set[0] = make_set (o->form, o->in, o->n, o->varargs); if (v_chance (&v_rng, 50)) { pr[k].f = dex_future_finally (dex_ref (o->set[0]), probe_cb, &pr[k], NULL); } }
    }
  /* repeated inputs: readers index outcomes by slot */
  for (guint k = 0; k < RS; k++)
    {
      One *o = &c->o[k];
      if (o->nuniq != o->n)
        {
          /* keep it simple: slots beyond the distinct ones get their promise's outcome by reordering */
          DexFuture *in2[12]; guint m = 0;
          for (guint u = 0; u < o->nuniq; u++) in2[m++] = DEX_FUTURE (o->p[u]);
          for (guint i = 0; m < o->n; i++) { o->out[m] = o->out[i % o->nuniq]; in2[m] = DEX_FUTURE (o->p[i % o->nuniq]); m++; }
          if (!c->build_racing) { dex_clear (&pr[k].f); dex_unref (o->set[0]); }
          memcpy (o->in, in2, sizeof in2[0] * o->n);
          if (!c->build_racing) o->set[0] = make_set (o->form, o->in, o->n, o->varargs);
        }
    }
  v_par_ctx (c->nthreads + 1, race_thread, c);
  v_drain ();
  for (guint k = 0; k < RS; k++)
    {
      One *o = &c->o[k];
      int got = v_out_read (o->set[0], fname[o->form]), rej = 0;
      gboolean ok = FALSE;
      for (guint i = 0; i < o->n; i++) rej += o->out[i] & 1;
      switch (o->form)
        {
        case F_ALL: ok = got == (rej ? V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED : V_OUT_TRUE); break;
        case F_ANY: if (rej == (int)o->n) ok = got == V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED; break;
        case F_RACE: if (rej == 0) ok = got == V_OUT_TRUE; break;
        default: break;
        }
      for (guint i = 0; i < o->nuniq && !ok; i++)
        if (got == o->out[i] && o->form != F_ALL && (o->form == F_FIRST || (o->form == F_ANY) == !(got & 1)))
          {
            gboolean beaten = FALSE;
            /* the set existed before: something of the same thread that settles it must not have come earlier */
            if (!c->build_racing)
              for (guint j = 0; j < o->nuniq; j++)
                if (o->owner[j] == o->owner[i] && o->seq[j] < o->seq[i] && (o->form == F_FIRST || (o->form == F_ANY) == !(o->out[j] & 1))) beaten = TRUE;
            if (!beaten) { ok = TRUE; first_wins[o->owner[i]]++; sig = v_hash_add (sig, k * 8 + o->owner[i]); }
          }
      v_check (ok, "wrong-outcome", "%s of %u inputs (%d reject) on %u threads%s: %s, which no order of completions gives", fname[o->form], o->n, rej, c->nthreads, c->build_racing ? ", built meanwhile" : "", v_out_str (got));
      if (pr[k].f) v_check (pr[k].calls == 1, "notify-count", "%s: dependent told %d times", fname[o->form], pr[k].calls);
      check_accessors (o->set[0], o->in, o->out, o->n, fname[o->form]);
      v_eval (2 + o->n); v_event (o->n);
    }
  v_sig (sig); v_count ("set_reads_racing", c->reads);
  v_sample ("%u sets over %u threads%s; decided by thread 0/1/2/3: %u/%u/%u/%u", (guint)RS, c->nthreads, c->build_racing ? " built while completing" : "", first_wins[0], first_wins[1], first_wins[2], first_wins[3]);
  for (guint k = 0; k < RS; k++) { One *o = &c->o[k]; dex_clear (&pr[k].f); dex_unref (o->set[0]); for (guint i = 0; i < o->nuniq; i++) dex_unref (o->p[i]); }
  v_drain ();
  v_expect_live (l0, "sets completed by threads");
  g_free (pr); g_free (c);
}

/* ================================================================ C07: a graph of dependents against a model */
#define MN 48
enum { N_SRC, N_BLOCK, N_ALL, N_FIRST, N_ANYL, N_RACEL, N_DELAY };
typedef struct {
  int kind;
  DexFuture *f; int user, keep;    /* references of the program */
  GCancellable *canc;              /* sources */
  int n, kid[5];                   /* inputs; block: kid[0] is what it awaits */
  gboolean settled, rej, dead, ran, gone; /* gone: delayed which gave up */
  int inner;                       /* block: source its callback returns, -1 none */
  gboolean released;
  guint cancels;
} GN;
typedef struct { GN n[MN]; int nn, fresh; } Graph;
static Graph *gr;

static DexFuture *
gn_cb (DexFuture *f, gpointer data)
{
  GN *b = data;
  if (b->inner >= 0) return dex_ref (gr->n[b->inner].f);
  return NULL;
}

static gboolean gn_holds (Graph *g, GN *d, int i)   /* d keeps a reference on node i */
{
  if (d->dead) return FALSE;
  if (d->kind == N_BLOCK) return !d->settled && d->kid[0] == i;
  if (d->kind == N_DELAY) return !d->settled && !d->gone && d->kid[0] == i;
  if (d->kind == N_SRC) return FALSE;
  for (int k = 0; k < d->n; k++) if (d->kid[k] == i) return TRUE;
  return FALSE;
}
static gboolean gn_has (GN *d, int i) { for (int k = 0; k < d->n; k++) if (d->kid[k] == i) return TRUE; return FALSE; }
static gboolean gn_wants (Graph *g, GN *d, int i)   /* d still depends on the outcome of i */
{
  return gn_holds (g, d, i) && !d->settled;
}
static gboolean
gn_step (Graph *g)
{
  gboolean again = FALSE;
  for (int i = 0; i < g->nn; i++)
    {
      GN *d = &g->n[i];
      if (d->dead) continue;
      if (!d->user && !d->keep)
        {
          gboolean held = FALSE;
          for (int j = 0; j < g->nn; j++) if (j != i && gn_holds (g, &g->n[j], i)) held = TRUE;
          if (!held) { d->dead = TRUE; again = TRUE; continue; }
        }
      if (d->settled || d->kind == N_SRC) continue;
      if (d->kind == N_BLOCK || d->kind == N_DELAY)
        {
          GN *k = &g->n[d->kid[0]];
          if (d->gone || !k->settled || (d->kind == N_DELAY && !d->released)) continue;
          if (d->kind == N_BLOCK && !d->ran)
            {
              d->ran = TRUE;
              if (d->inner >= 0) { d->kid[0] = d->inner; again = TRUE; continue; }
            }
          d->settled = TRUE; d->rej = k->rej; again = TRUE;
        }
      else
        {
          int ns = 0, nr = 0;
          for (int k = 0; k < d->n; k++) { ns += g->n[d->kid[k]].settled; nr += g->n[d->kid[k]].settled && g->n[d->kid[k]].rej; }
          if (ns == d->n || (d->kind == N_FIRST && ns) || (d->kind == N_ANYL && ns > nr) || (d->kind == N_RACEL && nr)) { d->settled = TRUE; again = TRUE; }
        }
    }
  return again;
}
/* which nodes depend on i, as a bit set */
static guint64
gn_deps (Graph *g, int i)
{
  guint64 m = 0;
  for (int j = 0; j < g->nn; j++) if (gn_wants (g, &g->n[j], i)) m |= 1ull << j;
  return m;
}

static void
graph_op_end (Graph *g, const guint64 *before, const gboolean *was_pending, const char *op)
{
  guint64 b2[MN];
  for (;;)
    {
      while (gn_step (g));
      /* a delayed future whose last dependent left gives up */
      gboolean more = FALSE;
      for (int i = 0; i < g->nn; i++)
        {
          GN *d = &g->n[i];
          if (d->kind == N_DELAY && !d->dead && !d->settled && !d->gone && !gn_deps (g, i) &&
              (before[i] || (g->fresh >= 0 && gn_has (&g->n[g->fresh], i) && g->n[g->fresh].settled))) { d->gone = TRUE; more = TRUE; }
        }
      if (!more) break;
    }
  for (int i = 0; i < g->nn; i++)
    {
      GN *s = &g->n[i];
      gboolean is;
      b2[i] = gn_deps (g, i);
      if (s->kind != N_SRC) continue;
      is = g_cancellable_is_cancelled (s->canc);
      v_eval (1);
      if (s->cancels) { v_check (is, "cancel-undone", "source became uncancelled"); continue; }
      if (is)
        {
          /* a set which was decided from the start may have given up its inputs */
          v_check (was_pending[i] && (before[i] != 0 || (g->fresh >= 0 && gn_has (&g->n[g->fresh], i) && g->n[g->fresh].settled)), "cancelled-wrongly", "%s: source %d cancelled although it %s", op, i, was_pending[i] ? "had no dependents" : "was settled");
          v_check (!(before[i] & b2[i]), "cancelled-wrongly", "%s: source %d cancelled while %d futures still depend on it", op, i, __builtin_popcountll (before[i] & b2[i]));
          s->cancels++;
          v_count ("withdrawn", 1);
        }
      else if (was_pending[i] && !s->settled && before[i] && !b2[i])
        v_fail ("not-cancelled", "%s: nothing depends on source %d any more, yet it was not told", op, i);
    }
  for (int i = 0; i < g->nn; i++)
    if (g->n[i].user + g->n[i].keep > 0)
      v_check ((dex_future_get_status (g->n[i].f) != DEX_FUTURE_STATUS_PENDING) == g->n[i].settled, "wrong-outcome", "%s: node %d of kind %d is %s", op, i, g->n[i].kind, g->n[i].settled ? "still pending" : "settled early");
}

static void
s_graph (void)
{
  Graph *g = gr = g_new0 (Graph, 1);
  gint64 l0 = v_live ();
  int ns = 2 + v_below (&v_rng, 6), ops = 10 + v_below (&v_rng, 40);
  uint64_t sig = 0;
  for (int i = 0; i < ns; i++)
    {
      GN *s = &g->n[g->nn++];
      DexPromise *p = dex_promise_new_cancellable ();
      s->kind = N_SRC; s->f = DEX_FUTURE (p); s->user = 1; s->canc = g_object_ref (dex_promise_get_cancellable (p)); s->inner = -1;
    }
  for (int o = 0; o < ops; o++)
    {
      guint64 before[MN]; gboolean pend[MN];
      char op[80] = "";
      g->fresh = -1;
      int what = v_below (&v_rng, 100);
      for (int i = 0; i < MN; i++) { before[i] = i < g->nn ? gn_deps (g, i) : 0; pend[i] = i < g->nn && !g->n[i].settled; }
      if (what < 45 && g->nn < MN - 1)
        {
          /* a new dependent */
          GN *d = &g->n[g->nn];
          int live[MN], nlv = 0, idx = g->nn;
          gboolean give[5];
          DexFuture *in[5];
          d->kind = 1 + v_below (&v_rng, 6); d->inner = -1;
          for (int i = 0; i < g->nn; i++)
            if (g->n[i].user > 0 && (g->n[i].kind == N_SRC || (d->kind != N_ANYL && d->kind != N_RACEL)) && !(g->n[i].kind == N_DELAY && g->n[i].gone)) live[nlv++] = i;
          if (!nlv) continue;
          if (d->kind == N_DELAY)
            {
              /* over a source of its own, so that what is told first does not matter */
              DexPromise *p = dex_promise_new_cancellable ();
              GN *s = d; d = &g->n[++g->nn]; idx = g->nn;
              s->kind = N_SRC; s->f = DEX_FUTURE (p); s->user = 1; s->canc = g_object_ref (dex_promise_get_cancellable (p)); s->inner = -1;
              d->kind = N_DELAY; d->inner = -1; d->n = 1; d->kid[0] = idx - 1;
              before[idx - 1] = 0; pend[idx - 1] = TRUE;
              d->f = dex_delayed_new (s->f); d->user = 1; g->nn++;
              g_snprintf (op, sizeof op, "new delayed %d", idx);
            }
          else
            {
              d->n = d->kind == N_BLOCK ? 1 : 1 + v_below (&v_rng, 5);
              if (d->n > nlv) d->n = nlv;
              for (int k = 0; k < d->n; k++)
                {
                  d->kid[k] = live[v_below (&v_rng, nlv)];
                  give[k] = g->n[d->kid[k]].user > 0 && v_chance (&v_rng, 35);
                  in[k] = g->n[d->kid[k]].f;
                  if (g->n[d->kid[k]].user == 0) give[k] = FALSE;
                  for (int j = 0; j < k; j++) if (d->kid[j] == d->kid[k]) give[k] = FALSE;
                  /* only sources private to a delayed future: see above */
                  if (give[k]) g->n[d->kid[k]].user--;
                }
              if (d->kind == N_BLOCK)
                {
                  if (v_chance (&v_rng, 30)) { d->inner = v_below (&v_rng, ns); if (g->n[d->inner].dead || g->n[d->inner].user == 0) d->inner = -1; }
                  if (d->inner >= 0) g->n[d->inner].keep++;  /* the callback needs it alive: keep one */
                  if (d->inner >= 0) dex_ref (g->n[d->inner].f);
                  d->f = dex_future_finally (give[0] ? in[0] : dex_ref (in[0]), gn_cb, d, NULL);
                }
              else
                {
                  int form = d->kind == N_ALL ? F_ALL : d->kind == N_FIRST ? F_FIRST : d->kind == N_ANYL ? F_ANY : F_RACE;
                  d->f = make_set (form, in, d->n, v_chance (&v_rng, 50));
                  for (int k = 0; k < d->n; k++) if (give[k]) dex_unref (in[k]);
                }
              d->user = 1; g->nn++;
              g_snprintf (op, sizeof op, "new dependent %d kind %d", idx, d->kind);
            }
          g->fresh = idx;
          sig = v_hash_add (sig, d->kind);
        }
      else if (what < 75)
        {
          /* a reference is dropped; not of sources, their owner keeps them */
          int i = v_below (&v_rng, g->nn);
          GN *d = &g->n[i];
          if (d->user <= 0 || d->kind == N_SRC) continue;
          d->user--;
          g_snprintf (op, sizeof op, "drop %d kind %d", i, d->kind);
          dex_unref (d->f);
          sig = v_hash_add (sig, 20 + d->kind);
        }
      else if (what < 90)
        {
          int i = v_below (&v_rng, g->nn);
          GN *s = &g->n[i];
          if (s->kind != N_SRC || s->settled || s->user + s->keep <= 0) continue;
          s->settled = TRUE; s->rej = v_chance (&v_rng, 40);
          g_snprintf (op, sizeof op, "complete source %d", i);
          v_out_complete (DEX_PROMISE (s->f), s->rej ? 41 : 40, TRUE);
          sig = v_hash_add (sig, 40 + s->rej);
        }
      else
        {
          int i = v_below (&v_rng, g->nn);
          GN *s = &g->n[i];
          if (s->kind != N_DELAY || s->user <= 0) continue;
          s->released = TRUE;
          g_snprintf (op, sizeof op, "release delayed %d", i);
          dex_delayed_release (DEX_DELAYED (s->f));
          sig = v_hash_add (sig, 60);
        }
      if (!op[0]) continue;
      if (g_getenv ("V_TRACE")) { g_printerr ("%s:", op); if (g->fresh >= 0) for (int k = 0; k < g->n[g->fresh].n; k++) g_printerr (" %d", g->n[g->fresh].kid[k]); g_printerr ("\n"); }
      graph_op_end (g, before, pend, op);
      v_event (1);
    }
  v_sig (sig);
  v_sample ("%d sources, %d dependents, %d operations", ns, g->nn - ns, ops);
  for (int i = g->nn - 1; i >= 0; i--)
    {
      while (g->n[i].keep-- > 0) dex_unref (g->n[i].f);
      while (g->n[i].user-- > 0) dex_unref (g->n[i].f);
    }
  v_drain ();
  v_expect_live (l0, "graph of dependents");
  for (int i = 0; i < g->nn; i++) g_clear_object (&g->n[i].canc);
  g_free (g);
}

/* dependents of one source come and go on several threads */
#define WK 16
typedef struct { DexPromise *p[WK]; GCancellable *c[WK]; DexFuture *keep[WK], *last[WK][3]; int mode[WK]; guint nthreads; int out[WK]; int lost; } With;
static void
with_thread (guint idx, VRng *rng, gpointer data)
{
  With *w = data;
  for (guint k = 0; k < WK; k++)
    {
      v_noise_point ();
      if (w->mode[k] == 0)
        {
          /* kept by someone: dependents of many kinds come and go */
          for (int r = 0; r < 3; r++)
            {
              DexFuture *in[3] = { DEX_FUTURE (w->p[k]), DEX_FUTURE (w->p[k]), DEX_FUTURE (w->p[(k + 1) % WK]) };
              DexFuture *s = make_set (v_below (rng, 4), in, w->mode[(k + 1) % WK] == 0 ? 1 + v_below (rng, 3) : 1, v_chance (rng, 50));
              v_noise_point ();
              dex_unref (s);
              if (g_cancellable_is_cancelled (w->c[k])) v_fail ("cancelled-wrongly", "cancelled while a dependent is left");
            }
        }
      else if (w->mode[k] == 1) dex_clear (&w->last[k][idx]);         /* the last ones leave together */
      else if (w->mode[k] == 2)
        {
          /* completion races with the dependents leaving */
          if (idx == 0) v_out_complete (w->p[k], w->out[k], TRUE); else dex_clear (&w->last[k][idx]);
        }
      else
        {
          /* completion races with sets being built and dropped; one dependent stays */
          if (idx == 0) v_out_complete (w->p[k], w->out[k], TRUE);
          else
            {
              DexFuture *in[2] = { DEX_FUTURE (w->p[k]), DEX_FUTURE (w->p[k]) };
              DexFuture *s = make_set (v_below (rng, 4), in, 2, FALSE);
              dex_unref (s);
            }
        }
    }
}
static void
s_withdraw (void)
{
  With *w = g_new0 (With, 1);
  gint64 l0 = v_live ();
  uint64_t sig = 0;
  int cancelled = 0;
  w->nthreads = 2 + v_below (&v_rng, 2);
  for (guint k = 0; k < WK; k++)
    {
      DexFuture *in[1];
      w->p[k] = dex_promise_new_cancellable (); w->c[k] = g_object_ref (dex_promise_get_cancellable (w->p[k])); w->mode[k] = v_below (&v_rng, 4); w->out[k] = v_below (&v_rng, 200);
      in[0] = DEX_FUTURE (w->p[k]);
      if (w->mode[k] == 0 || w->mode[k] == 3) w->keep[k] = v_chance (&v_rng, 50) ? dex_future_allv (in, 1) : dex_future_firstv (in, 1);
      else for (guint t = 0; t < w->nthreads; t++) w->last[k][t] = make_set (v_below (&v_rng, 4), in, 1, FALSE);
    }
  v_par (w->nthreads, with_thread, w);
  for (guint k = 0; k < WK; k++)
    {
      gboolean is = g_cancellable_is_cancelled (w->c[k]);
      switch (w->mode[k])
        {
        case 0:
          v_check (!is, "cancelled-wrongly", "cancelled while a dependent is left");
          dex_clear (&w->keep[k]);
          v_check (g_cancellable_is_cancelled (w->c[k]), "not-cancelled", "last dependent left after others came and went, not cancelled");
          break;
        case 1: v_check (is, "not-cancelled", "%u dependents left at the same time, not cancelled", w->nthreads); break;
        case 2:
          v_check (v_out_read (DEX_FUTURE (w->p[k]), "source") == w->out[k], "wrong-outcome", "source lost its outcome");
          if (w->last[k][0])
            v_check (!dex_future_is_pending (w->last[k][0]), "not-told", "dependent left pending");
          v_check (!is, "cancelled-wrongly", "cancelled although a dependent never left");
          break;
        default:
          v_check (!is, "cancelled-wrongly", "cancelled although a dependent never left");
          v_check (!dex_future_is_pending (w->keep[k]), "not-told", "dependent which stayed is pending");
        }
      cancelled += is; sig = v_hash_add (sig, w->mode[k] * 2 + is);
      v_eval (2); v_event (w->nthreads);
    }
  for (guint k = 0; k < WK; k++) { dex_clear (&w->keep[k]); for (int t = 0; t < 3; t++) dex_clear (&w->last[k][t]); dex_unref (w->p[k]); g_object_unref (w->c[k]); }
  v_sig (v_hash_add (sig, w->nthreads)); v_count ("withdrawn", cancelled);
  v_sample ("%u sources, %u threads, %d cancelled", (guint)WK, w->nthreads, cancelled);
  v_drain ();
  v_expect_live (l0, "withdrawal");
  g_free (w);
}

/* a set that is decided on one thread drops its other inputs while those complete on others */
typedef struct { DexPromise *a[WK], *b[WK]; DexFuture *s[WK], *other[WK]; GCancellable *cb[WK]; int form[WK], mode[WK]; } Dec;
static void
dec_thread (guint idx, VRng *rng, gpointer data)
{
  Dec *d = data;
  for (guint k = 0; k < WK; k++)
    {
      v_noise_point ();
      if (idx == 0) v_out_complete (d->a[k], d->form[k] == F_RACE ? 21 : 20, TRUE);
      else if (d->mode[k] == 0) { v_out_complete (d->b[k], 40, TRUE); }
      else if (d->mode[k] == 1) { DexFuture *in[1] = { DEX_FUTURE (d->b[k]) }; d->other[k] = dex_future_allv (in, 1); }
      else if (d->mode[k] == 2) { DexFuture *s = g_steal_pointer (&d->other[k]); dex_clear (&s); }
    }
}
static void
s_decided (void)
{
  Dec *d = g_new0 (Dec, 1);
  gint64 l0 = v_live ();
  uint64_t sig = 0;
  for (guint k = 0; k < WK; k++)
    {
      DexFuture *in[2], *one[1];
      d->a[k] = dex_promise_new (); d->b[k] = dex_promise_new_cancellable (); d->cb[k] = g_object_ref (dex_promise_get_cancellable (d->b[k]));
      d->form[k] = F_ANY + v_below (&v_rng, 3); d->mode[k] = v_below (&v_rng, 4);
      in[0] = DEX_FUTURE (d->a[k]); in[1] = DEX_FUTURE (d->b[k]); one[0] = in[1];
      if (v_chance (&v_rng, 50)) { DexFuture *t = in[0]; in[0] = in[1]; in[1] = t; }
      d->s[k] = make_set (d->form[k], in, 2, v_chance (&v_rng, 50));
      if (d->mode[k] == 2 || (d->mode[k] == 3 && v_chance (&v_rng, 50))) d->other[k] = dex_future_allv (one, 1);
    }
  v_par (2, dec_thread, d);
  for (guint k = 0; k < WK; k++)
    {
      gboolean is = g_cancellable_is_cancelled (d->cb[k]);
      int got = v_out_read (d->s[k], "decided");
      v_check (got != V_PENDING, "not-settled", "%s is pending with a deciding input", fname[d->form[k]]);
      switch (d->mode[k])
        {
        case 0: v_check (v_out_read (DEX_FUTURE (d->b[k]), "input") == 40, "wrong-outcome", "input lost its outcome"); break;
        case 1:
          dex_clear (&d->other[k]);
          v_check (g_cancellable_is_cancelled (d->cb[k]), "not-cancelled", "nobody wants the input any more, not cancelled");
          break;
        case 2: v_check (is, "not-cancelled", "%s decided and the other dependent left, not cancelled", fname[d->form[k]]); break;
        default: v_check (is == (d->other[k] == NULL), is ? "cancelled-wrongly" : "not-cancelled", "%s decided, other dependent %s, input %scancelled", fname[d->form[k]], d->other[k] ? "left" : "none", is ? "" : "not ");
        }
      sig = v_hash_add (sig, d->mode[k] * 64 + d->form[k] * 2 + is + (got == 40 ? 32 : 0));
      v_eval (2); v_event (2);
    }
  for (guint k = 0; k < WK; k++) { dex_clear (&d->other[k]); dex_unref (d->s[k]); dex_unref (d->a[k]); dex_unref (d->b[k]); g_object_unref (d->cb[k]); }
  v_sig (sig);
  v_expect_live (l0, "decided sets");
  g_free (d);
}

/* ================================================================ C29: delayed */
#define DK 20
typedef struct { DexPromise *p; DexFuture *src, *d, *dep, *wdep; int out, mode, kind; Probe pr; } Del;
typedef struct { Del d[DK]; guint nthreads; int dup_ok; } Dels;
static void
del_read (Del *x, gboolean may_settle)
{
  int n = v_out_read (x->d, "delayed");
  if (n != V_PENDING && n != x->out) v_fail ("wrong-outcome", "delayed future is %s, wraps %s", v_out_str (n), v_out_str (x->out));
  if (n != V_PENDING && !may_settle) v_fail ("settled-early", "delayed future settled before its release");
}
static void
del_thread (guint idx, VRng *rng, gpointer data)
{
  Dels *c = data;
  for (guint k = 0; k < DK; k++)
    {
      Del *x = &c->d[k];
      v_noise_point ();
      if (idx == 0) { if (x->p && x->mode != 3) v_out_complete (x->p, x->out, TRUE); }
      else if (idx == 1) { if (x->mode != 2) { dex_delayed_release (DEX_DELAYED (x->d)); if (v_chance (rng, 30)) dex_delayed_release (DEX_DELAYED (x->d)); } }
      else if (x->mode == 0 || v_chance (rng, 50))
        {
          DexFuture *f = dex_delayed_dup_future (DEX_DELAYED (x->d));
          if (f) { if (f != x->src) v_fail ("wrong-future", "dup_future returns another future"); g_atomic_int_inc (&c->dup_ok); dex_unref (f); }
          del_read (x, x->mode != 2 && x->mode != 3);
        }
      else dex_delayed_release (DEX_DELAYED (x->d)), x->mode == 2 ? (void)0 : (void)0;
    }
}
static DexFuture *
del_src (Del *x)
{
  switch (x->kind)
    {
    case 0: x->p = dex_promise_new (); return dex_ref (DEX_FUTURE (x->p));
    case 1: x->p = NULL; return v_out_static (x->out);
    case 2: x->p = dex_promise_new (); return dex_future_finally (dex_ref (x->p), probe_cb, &x->pr, NULL);
    default: { DexFuture *in[1]; x->p = dex_promise_new (); in[0] = DEX_FUTURE (x->p); return dex_future_firstv (in, 1); }
    }
}
static void
s_delayed (void)
{
  Dels *c = g_new0 (Dels, 1);
  gint64 l0 = v_live ();
  uint64_t sig = 0;
  c->nthreads = 2 + v_below (&v_rng, 2);
  for (guint k = 0; k < DK; k++)
    {
      Del *x = &c->d[k];
      DexFuture *in[1];
      x->out = v_below (&v_rng, 400); x->kind = v_below (&v_rng, 4); x->mode = v_below (&v_rng, 4);
      if (x->mode == 2 && c->nthreads > 2) x->mode = 0;
      if (x->kind == 1 && x->mode == 3) x->mode = 0;
      x->src = del_src (x);
      x->d = dex_delayed_new (x->src);
      { DexFuture *f = dex_delayed_dup_future (DEX_DELAYED (x->d)); if (x->kind != 1 || f) v_check (f == x->src, "wrong-future", "dup_future does not return the wrapped future"); dex_clear (&f); }
      del_read (x, FALSE);
      in[0] = x->d;
      x->dep = v_chance (&v_rng, 50) ? dex_future_firstv (in, 1) : dex_future_finally (dex_ref (x->d), probe_cb, &x->pr, NULL);
      in[0] = x->src;
      x->wdep = dex_future_firstv (in, 1);
    }
  v_par_ctx (c->nthreads, del_thread, c);
  v_drain ();
  for (guint k = 0; k < DK; k++)
    {
      Del *x = &c->d[k];
      int d = v_out_read (x->d, "delayed"), s = v_out_read (x->src, "wrapped"), dep = v_out_read (x->dep, "dependent"), wd = v_out_read (x->wdep, "dependent of the wrapped future");
      gboolean done = x->mode != 3 || x->kind == 1, rel = x->mode != 2;
      v_check (s == (done ? x->out : V_PENDING) && wd == s, "wrapped-affected", "wrapped future is %s, its dependent %s", v_out_str (s), v_out_str (wd));
      v_check (d == (done && rel ? x->out : V_PENDING), done && rel ? "not-settled" : "settled-early", "delayed is %s: %sreleased, wrapped future %s", v_out_str (d), rel ? "" : "not ", v_out_str (s));
      v_check (dep == d, "wrong-outcome", "dependent of a delayed future is %s, the future %s", v_out_str (dep), v_out_str (d));
      if (rel) { DexFuture *f = dex_delayed_dup_future (DEX_DELAYED (x->d)); v_check (f == NULL, "wrong-future", "dup_future after release"); }
      /* the other half afterwards */
      if (!rel) dex_delayed_release (DEX_DELAYED (x->d));
      if (!done) v_out_complete (x->p, x->out, FALSE);
      v_check (v_out_read (x->d, "delayed") == x->out, "not-settled", "delayed is %s after release and completion", v_out_str (v_out_read (x->d, "delayed")));
      v_check (v_out_read (x->dep, "dependent") == x->out, "not-told", "dependent of a delayed future is %s", v_out_str (v_out_read (x->dep, "dependent")));
      sig = v_hash_add (sig, x->kind * 16 + x->mode * 2 + (d != V_PENDING));
      v_eval (6); v_event (2);
    }
  v_sig (sig); v_count ("dup_future_before_release", c->dup_ok);
  v_sample ("%u delayed futures released and completed on %u threads", (guint)DK, c->nthreads);
  for (guint k = 0; k < DK; k++) { Del *x = &c->d[k]; dex_unref (x->dep); dex_unref (x->wdep); dex_unref (x->d); dex_unref (x->src); dex_clear (&x->p); }
  v_drain ();
  v_expect_live (l0, "delayed futures");
  g_free (c);
}

/* every order of create/attach/complete/release/drop, one thread */
static void
s_delseq (void)
{
  gint64 l0 = v_live ();
  int out = v_below (&v_rng, 400), kind = v_below (&v_rng, 4), levels = 1 + v_below (&v_rng, 3);
  Del x = { .out = out, .kind = kind };
  DexFuture *d[3], *dep[12] = { 0 };
  int depof[12], nd = 0, ops = 4 + v_below (&v_rng, 12);
  gboolean done = kind == 1, rel[3] = { 0 };
  uint64_t sig = kind * 4 + levels;
  x.src = del_src (&x);
  for (int l = 0; l < levels; l++) d[l] = dex_delayed_new (l ? d[l - 1] : x.src);
  for (int o = 0; o <= ops; o++)
    {
      int what = v_below (&v_rng, 6), l = v_below (&v_rng, levels);
      int want;
      if (o == ops - 1) what = 0; else if (o == ops) what = 5;
      switch (what)
        {
        case 0: if (!done) { v_out_complete (x.p, out, TRUE); done = TRUE; } break;
        case 1: dex_delayed_release (DEX_DELAYED (d[l])); rel[l] = TRUE; break;
        case 2: case 3:
          if (nd < 12)
            {
              DexFuture *in[1] = { d[l] };
              depof[nd] = l; dep[nd++] = what == 2 ? dex_future_firstv (in, 1) : dex_future_finally (dex_ref (d[l]), probe_cb, &x.pr, NULL);
            }
          break;
        case 4: { DexFuture *f = dex_delayed_dup_future (DEX_DELAYED (d[l])); gboolean settled = !dex_future_is_pending (l ? d[l - 1] : x.src);
                  v_check (rel[l] ? f == NULL : (f == (l ? d[l - 1] : x.src) || (settled && f == NULL)), "wrong-future", "dup_future"); dex_clear (&f); } break;
        default: for (int i = 0; i < levels && o == ops; i++) { dex_delayed_release (DEX_DELAYED (d[i])); rel[i] = TRUE; } break;
        }
      want = done ? out : V_PENDING;
      v_check (v_out_read (x.src, "wrapped") == want, "wrapped-affected", "wrapped future is %s", v_out_str (v_out_read (x.src, "wrapped")));
      for (int i = 0; i < levels; i++)
        {
          if (!rel[i]) want = V_PENDING;
          v_check (v_out_read (d[i], "delayed") == want, want == V_PENDING ? "settled-early" : "not-settled", "delayed level %d is %s, should be %s", i, v_out_str (v_out_read (d[i], "delayed")), v_out_str (want));
          for (int j = 0; j < nd; j++) if (depof[j] == i) v_check (v_out_read (dep[j], "dependent") == want, "not-told", "dependent of level %d is %s, should be %s", i, v_out_str (v_out_read (dep[j], "dependent")), v_out_str (want));
          v_eval (1 + nd);
        }
      sig = v_hash_add (sig, what * 4 + l); v_event (1);
    }
  v_sig (sig);
  for (int j = 0; j < nd; j++) dex_unref (dep[j]);
  for (int l = levels - 1; l >= 0; l--) dex_unref (d[l]);
  dex_unref (x.src); dex_clear (&x.p);
  v_drain ();
  v_expect_live (l0, "delayed futures");
}

static const VScenario scenarios[] = {
  { "order", s_order, 100 },
  { "wide", s_wide, 100 },
  { "nested", s_nested, 100 },
  { "race", s_race, 100 },
  { "graph", s_graph, 100 },
  { "withdraw", s_withdraw, 100 },
  { "decided", s_decided, 100 },
  { "delayed", s_delayed, 100 },
  { "delseq", s_delseq, 100 },
  { 0 }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
