/* C25, C26: async/finish pairs wrapped in futures, futures exposed as GAsyncResult */
#include "vout.h"
#include "dex-async-pair-private.h"

#define CANCELLED (V_OUT_IOERR + 2 * G_IO_ERROR_CANCELLED)

/* ---------------------------------------------------------------- the result object of the monitored operations */
typedef struct { GObject parent; gpointer plan; } VRes;
typedef struct { GObjectClass parent; } VResClass;
static gint vres_live;
static void vres_iface (GAsyncResultIface *i) {}
G_DEFINE_TYPE_WITH_CODE (VRes, vres, G_TYPE_OBJECT, G_IMPLEMENT_INTERFACE (G_TYPE_ASYNC_RESULT, vres_iface))
static void vres_finalize (GObject *o) { g_atomic_int_add (&vres_live, -1); G_OBJECT_CLASS (vres_parent_class)->finalize (o); }
static void vres_class_init (VResClass *k) { G_OBJECT_CLASS (k)->finalize = vres_finalize; }
static void vres_init (VRes *r) { g_atomic_int_inc (&vres_live); }

enum { K_BOOL, K_INT, K_UINT, K_I64, K_U64, K_LONG, K_ULONG, K_STR, K_PTR, K_OBJ, K_ENUM, K_FLAGS, K_BOX, K_BYTES, K_N, K_DOUBLE = K_N, K_VARIANT, K_NONE, K_ALL };
typedef struct {
  guint kind; guint64 val; gboolean null, fail;
  gboolean now;             /* replies before the start function returned */
  gpointer instance; GCancellable *cancellable; GAsyncReadyCallback cb; gpointer cb_data;
  int started, finished, replied;
  DexFuture *f, *tell, *set; DexPromise *other;
  gboolean keep_going;      /* cancel_on_discard is off */
  gboolean cancelled;       /* model */
  int told, told_state; gboolean held;
  /* races */
  int drop_begun, drop_done, reply_begun, reply_done, cancel_begun;
} Plan;
static __thread Plan *starting;

static void
do_reply (Plan *p)
{
  VRes *r = g_object_new (vres_get_type (), NULL);
  GAsyncReadyCallback cb = p->cb;
  r->plan = p;
  p->replied++;
  cb (p->instance, G_ASYNC_RESULT (r), p->cb_data);
  g_object_unref (r);
}
static void
op_async (gpointer instance, GCancellable *cancellable, GAsyncReadyCallback cb, gpointer data)
{
  Plan *p = starting;
  v_check (p && p->instance == instance, "pair-instance", "the operation was started on another instance");
  v_check (G_IS_CANCELLABLE (cancellable), "pair-cancellable", "the operation was started without a cancellable");
  v_check (++p->started == 1, "pair-started", "an operation was started twice");
  p->cancellable = g_object_ref (cancellable); p->cb = cb; p->cb_data = data;
  v_check (cb != NULL, "pair-callback", "the operation was started without callback");
  if (p->now) do_reply (p);
}
static Plan *
fin (gpointer instance, GAsyncResult *res, GError **error)
{
  Plan *p;
  if (!G_TYPE_CHECK_INSTANCE_TYPE (res, vres_get_type ())) v_fail ("pair-result", "finish got another result object");
  p = ((VRes *) res)->plan;
  v_check (p->instance == instance, "pair-instance", "finish got another instance");
  v_check (++p->finished == 1, "pair-finish-twice", "finish was called twice");
  v_check (error != NULL && *error == NULL, "pair-error-place", "finish was given no place for an error");
  if (p->fail && error) g_set_error (error, V_ERROR, (int) (p->val & 0xffff) | 1, "err-%d", (int) (p->val & 0xffff) | 1);
  return p;
}
#define FIN(name, type, ok, bad) static type fin_##name (gpointer i, GAsyncResult *r, GError **e) { Plan *p = fin (i, r, e); if (p->fail) return bad; return ok; }
FIN (bool, gboolean, p->val & 1, FALSE)
FIN (int, int, (int) p->val, -1)
FIN (uint, guint, (guint) p->val, 0)
FIN (i64, gint64, (gint64) p->val, -1)
FIN (u64, guint64, p->val, 0)
FIN (long, glong, (glong) p->val, -1)
FIN (ulong, gulong, (gulong) p->val, 0)
FIN (str, char *, p->null ? NULL : g_strdup_printf ("%" G_GUINT64_FORMAT, p->val), NULL)
FIN (ptr, gpointer, (gpointer) (gsize) p->val, NULL)
FIN (obj, gpointer, p->null ? NULL : v_obj_new ((int) (p->val & 0xfffffff)), NULL)
FIN (enum, int, (int) (p->val % 5), 0)
FIN (flags, guint, (guint) (p->val & 3), 0)
FIN (box, VBox *, p->null ? NULL : v_box_new ((int) (p->val & 0xfffffff)), NULL)
FIN (bytes, GBytes *, p->null ? NULL : g_bytes_new (&p->val, sizeof p->val), NULL)
static gpointer fins[] = { fin_bool, fin_int, fin_uint, fin_i64, fin_u64, fin_long, fin_ulong, fin_str, fin_ptr, fin_obj, fin_enum, fin_flags, fin_box, fin_bytes, fin_ptr, fin_ptr, fin_ptr };
static GType
kind_type (guint k)
{
  switch (k)
    {
    case K_BOOL: return G_TYPE_BOOLEAN; case K_INT: return G_TYPE_INT; case K_UINT: return G_TYPE_UINT; case K_I64: return G_TYPE_INT64;
    case K_U64: return G_TYPE_UINT64; case K_LONG: return G_TYPE_LONG; case K_ULONG: return G_TYPE_ULONG; case K_STR: return G_TYPE_STRING;
    case K_PTR: return G_TYPE_POINTER; case K_OBJ: return G_TYPE_OBJECT; case K_ENUM: return G_TYPE_FILE_TYPE; case K_FLAGS: return G_TYPE_FILE_CREATE_FLAGS;
    case K_BOX: return V_TYPE_BOX; case K_BYTES: return G_TYPE_BYTES; case K_DOUBLE: return G_TYPE_DOUBLE; case K_VARIANT: return G_TYPE_VARIANT; default: return G_TYPE_CHAR;
    }
}
/* is the value what finish gave? */
static void
check_value (Plan *p, const GValue *v)
{
  gboolean ok = FALSE;
  GType t = kind_type (p->kind);
  char b[32];
  if (p->kind == K_OBJ ? !G_VALUE_HOLDS_OBJECT (v) : G_VALUE_TYPE (v) != t)
    v_fail ("pair-type", "a pair of return type %s resolved with a %s", g_type_name (t), G_VALUE_TYPE_NAME (v));
  switch (p->kind)
    {
    case K_BOOL: ok = g_value_get_boolean (v) == (gboolean) (p->val & 1); break;
    case K_INT: ok = g_value_get_int (v) == (int) p->val; break;
    case K_UINT: ok = g_value_get_uint (v) == (guint) p->val; break;
    case K_I64: ok = g_value_get_int64 (v) == (gint64) p->val; break;
    case K_U64: ok = g_value_get_uint64 (v) == p->val; break;
    case K_LONG: ok = g_value_get_long (v) == (glong) p->val; break;
    case K_ULONG: ok = g_value_get_ulong (v) == (gulong) p->val; break;
    case K_STR: g_snprintf (b, sizeof b, "%" G_GUINT64_FORMAT, p->val); ok = !g_strcmp0 (g_value_get_string (v), p->null ? NULL : b); break;
    case K_PTR: ok = g_value_get_pointer (v) == (gpointer) (gsize) p->val; break;
    case K_OBJ: { gpointer o = g_value_get_object (v); ok = p->null ? o == NULL : o && v_obj_id (o) == (int) (p->val & 0xfffffff); } break;
    case K_ENUM: ok = g_value_get_enum (v) == (int) (p->val % 5); break;
    case K_FLAGS: ok = g_value_get_flags (v) == (guint) (p->val & 3); break;
    case K_BOX: ok = p->null ? g_value_get_boxed (v) == NULL : v_box_id_of (v) == (int) (p->val & 0xfffffff); break;
    case K_BYTES: { GBytes *y = g_value_get_boxed (v); ok = p->null ? y == NULL : y && g_bytes_get_size (y) == 8 && !memcmp (g_bytes_get_data (y, NULL), &p->val, 8); } break;
    default: v_fail ("pair-unsupported", "a pair with return type %s resolved", g_type_name (t));
    }
  v_check (ok, "pair-value", "a pair resolved with another value than finish returned (%s)", g_type_name (t));
}
/* 0 pending 1 value 2 its error 3 cancelled 4 not supported */
static int
look (Plan *p, DexFuture *f)
{
  GError *e = NULL;
  const GValue *v;
  int r;
  if (dex_future_is_pending (f)) return 0;
  v = dex_future_get_value (f, &e);
  if (v) { v_check (!p->fail, "pair-error-lost", "a pair resolved although finish failed"); check_value (p, v); v_eval (1); return 1; }
  if (e->domain == V_ERROR)
    {
      int want = (int) (p->val & 0xffff) | 1;
      char b[24]; g_snprintf (b, sizeof b, "err-%d", want);
      v_check (p->fail && e->code == want && !strcmp (e->message, b), "pair-error", "a pair rejected with error %d '%s'", e->code, e->message);
      r = 2;
    }
  else if (g_error_matches (e, G_IO_ERROR, G_IO_ERROR_CANCELLED)) r = 3;
  else if (g_error_matches (e, DEX_ERROR, DEX_ERROR_TYPE_NOT_SUPPORTED)) { v_check (p->kind >= K_N, "pair-unsupported", "a pair of return type %s is not supported", g_type_name (kind_type (p->kind))); r = 4; }
  else { v_fail ("pair-error", "a pair rejected with %s %d %s", g_quark_to_string (e->domain), e->code, e->message); r = 9; }
  g_clear_error (&e);
  v_eval (1);
  return r;
}
static int normal_outcome (Plan *p) { return p->kind >= K_N ? 4 : p->fail ? 2 : 1; }

static void
plan_random (Plan *p, VRng *rng)
{
  memset (p, 0, sizeof *p);
  p->kind = v_chance (rng, 94) ? v_below (rng, K_N) : K_N + v_below (rng, K_ALL - K_N);
  switch (v_below (rng, 5)) { case 0: p->val = v_below (rng, 3); break; case 1: p->val = G_MAXUINT64 - v_below (rng, 3); break; case 2: p->val = (guint64) 1 << v_below (rng, 64); break; default: p->val = v_rand (rng); }
  p->null = v_chance (rng, 12); p->fail = v_chance (rng, 25);
  p->instance = v_chance (rng, 70) ? v_obj_new (77) : NULL;
}
static void
plan_start (Plan *p)
{
  DexAsyncPairInfo info = DEX_ASYNC_PAIR_INFO (op_async, fins[p->kind], kind_type (p->kind));
  starting = p;
  p->f = dex_async_pair_new (p->instance, &info);
  starting = NULL;
  memset (&info, 0xee, sizeof info);   /* not kept by the caller */
  v_check (p->started == 1, "pair-not-started", "the operation was not started");
  v_check (p->cancellable == dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (p->f)), "pair-cancellable", "the operation was given another cancellable than dex_async_pair_get_cancellable()");
}
static void
plan_clear (Plan *p)
{
  dex_clear (&p->f);
  if (p->cancellable)
    {
      v_check (G_OBJECT (p->cancellable)->ref_count == 1, "pair-cancellable-leak", "%u references to the cancellable of a released pair are left", G_OBJECT (p->cancellable)->ref_count - 1);
      g_clear_object (&p->cancellable);
    }
  if (p->instance)
    {
      v_check (G_OBJECT (p->instance)->ref_count == 1, "pair-instance-leak", "%u references to the instance of a released pair are left", G_OBJECT (p->instance)->ref_count - 1);
      g_object_unref (p->instance); p->instance = NULL;
    }
}
static DexFuture *
told_cb (DexFuture *f, gpointer data)
{
  Plan *p = data;
  v_check (g_atomic_int_add (&p->told, 1) == 0, "pair-told-twice", "a pair settled twice");
  p->told_state = look (p, f);
  v_check (p->told_state != 0, "pair-told-pending", "a callback ran for a pending pair");
  return dex_ref (f);
}
static DexFuture *pass_cb (DexFuture *f, gpointer d) { return dex_ref (f); }

/* ================================================================ C25, one thread */
static void
s_pair (void)
{
  gint64 l0;
  guint n = 1 + v_below (&v_rng, 6), steps = n * 6, left = n;
  Plan *P = g_new0 (Plan, n);
  uint64_t sig = n;
  int boxes, objs;
  v_pool (); l0 = v_base (); boxes = v_box_live (); objs = v_obj_live (); vres_live = 0;
  for (guint i = 0; i < n; i++)
    {
      Plan *p = &P[i];
      plan_random (p, &v_rng);
      p->now = v_chance (&v_rng, 15);
      plan_start (p);
      v_check (dex_future_is_pending (p->f) == !p->now, "pair-early", "a new pair is %s", p->now ? "pending although finished" : "settled already");
      if (v_chance (&v_rng, 20)) { p->keep_going = TRUE; dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (p->f), FALSE); }
      if (v_chance (&v_rng, 75)) p->tell = dex_future_finally (dex_ref (p->f), told_cb, p, NULL);
      if (v_chance (&v_rng, 25)) { p->other = dex_promise_new (); p->set = dex_future_first (dex_ref (p->f), dex_ref (p->other), NULL); }
      p->held = TRUE;
      if (v_chance (&v_rng, 15) && p->tell) { dex_clear (&p->f); p->held = FALSE; }
    }
  while (left && steps--)
    {
      Plan *p = &P[v_below (&v_rng, n)];
      gboolean dep = p->tell != NULL || p->set != NULL, done = p->replied;
      switch (v_below (&v_rng, 8))
        {
        case 0: case 1:
          if (!p->replied)
            {
              int want = p->cancelled ? 3 : normal_outcome (p);
              v_check (g_cancellable_is_cancelled (p->cancellable) == p->cancelled, "pair-cancel", "the operation is %scancelled", p->cancelled ? "not " : "");
              do_reply (p); left--;
              v_check (p->finished == (want == 1 || want == 2), "pair-finish", "finish was called %d times, the outcome is %d", p->finished, want);
              if (p->f) { int r = look (p, p->f); v_check (r == want, "pair-outcome", "outcome %d after a reply, expected %d (1 value 2 error 3 cancelled 4 not supported)", r, want); }
              sig = v_hash_add (sig, want * 32 + p->kind);
            }
          break;
        case 2: /* its block leaves */
          if (p->tell)
            {
              dex_clear (&p->tell);
              if (!done && !p->set && !p->keep_going) p->cancelled = TRUE;
              if (p->told == 0) p->told_state = -1;
              sig = v_hash_add (sig, 1000);
            }
          break;
        case 3: /* its set leaves, or is decided by something else */
          if (p->set)
            {
              if (v_chance (&v_rng, 50)) { dex_promise_resolve_int (p->other, 1); }
              dex_clear (&p->set); dex_clear (&p->other);
              if (!done && !p->tell && !p->keep_going) p->cancelled = TRUE;
              sig = v_hash_add (sig, 1001);
            }
          break;
        case 4: if (p->f && (dep || done)) { dex_clear (&p->f); p->held = FALSE; } break;
        case 5: if (!done && v_chance (&v_rng, 20)) { g_cancellable_cancel (p->cancellable); p->cancelled = TRUE; sig = v_hash_add (sig, 1002); } break;
        case 6: if (p->f && !done) { p->keep_going = v_chance (&v_rng, 40); dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (p->f), !p->keep_going); } break;
        default: g_main_context_iteration (NULL, FALSE);
        }
      if (p->f) v_check (dex_future_is_pending (p->f) == !p->replied, "pair-pending", "a pair is %s", p->replied ? "still pending" : "settled before the reply");
      v_check (g_cancellable_is_cancelled (p->cancellable) == p->cancelled, "pair-cancel", "the operation is %scancelled", p->cancelled ? "not " : "");
      v_event (1);
    }
  for (guint i = 0; i < n; i++) if (!P[i].replied)
    {
      /* whoever had interest is gone: the late reply is absorbed */
      gboolean drop = v_chance (&v_rng, 50);
      if (drop) { dex_clear (&P[i].tell); dex_clear (&P[i].set); dex_clear (&P[i].other); dex_clear (&P[i].f); }
      do_reply (&P[i]);
    }
  for (guint i = 0; i < n; i++) if (P[i].tell) v_run_until_settled (P[i].tell, "the callback of a pair");
  for (guint i = 0; i < n; i++)
    {
      Plan *p = &P[i];
      if (p->tell)
        {
          int want = p->cancelled ? 3 : normal_outcome (p);
          v_check (p->told == 1 && p->told_state == want, "pair-outcome", "the callback saw outcome %d %d times, expected %d", p->told_state, p->told, want);
        }
      dex_clear (&p->tell); dex_clear (&p->set); dex_clear (&p->other);
    }
  v_drain ();
  for (guint i = 0; i < n; i++) plan_clear (&P[i]);
  v_expect_live (l0, "pairs");
  v_check (v_box_live () == boxes && v_obj_live () == objs && vres_live == 0, "pair-leak", "boxed %d objects %d results %d left after all pairs were released", v_box_live () - boxes, v_obj_live () - objs, vres_live);
  v_eval (n);
  v_sig (sig);
  v_sample ("%u pairs, kinds %u.., signature %016" G_GINT64_MODIFIER "x", n, P[0].kind, sig);
  g_free (P);
}

/* ================================================================ C25, threads */
static void
pr_thread (guint idx, VRng *rng, gpointer data)
{
  Plan *p = data;
  if (v_chance (rng, 60)) v_rnd_usleep (rng, 60);
  switch (idx)
    {
    case 0: /* the operation */
      {
        gboolean dropped = g_atomic_int_get (&p->drop_done), begun;
        gboolean c0 = g_cancellable_is_cancelled (p->cancellable);
        v_check (!dropped || p->keep_going || c0, "pair-cancel-lost", "the operation is not cancelled after its last dependent left");
        g_atomic_int_set (&p->reply_begun, 1);
        do_reply (p);
        begun = g_atomic_int_get (&p->drop_begun) || g_atomic_int_get (&p->cancel_begun);
        g_atomic_int_set (&p->reply_done, 1);
        v_check (p->finished || begun || p->kind >= K_N, "pair-no-finish", "finish was not called although nobody cancelled");
        v_check (!(c0 && p->finished), "pair-finish", "finish was called although the operation was cancelled before the reply");
      }
      break;
    case 1: /* those who wait for it */
      {
        gboolean before = g_atomic_int_get (&p->reply_done);
        g_atomic_int_set (&p->drop_begun, 1);
        if (v_chance (rng, 50)) { dex_clear (&p->tell); dex_clear (&p->set); } else { dex_clear (&p->set); dex_clear (&p->tell); }
        gboolean c = g_cancellable_is_cancelled (p->cancellable);   /* looked at before whether somebody did it by hand */
        if (before) v_check (g_atomic_int_get (&p->cancel_begun) || !c, "pair-cancel-late", "an operation which had replied was cancelled");
        g_atomic_int_set (&p->drop_done, 1);
      }
      break;
    case 2: /* reads */
      for (int last = 0, i = 0; i < 12; i++)
        {
          int r = look (p, p->f);
          v_check (last == 0 || r == last, "pair-changed", "the outcome of a pair changed from %d to %d", last, r);
          v_check (r == 0 || g_atomic_int_get (&p->reply_begun), "pair-early", "a pair settled before its reply");
          last = r;
        }
      break;
    default:
      if (v_chance (rng, 30)) { g_atomic_int_set (&p->cancel_begun, 1); g_cancellable_cancel (p->cancellable); }
    }
}
static void
s_pair_race (void)
{
  gint64 l0;
  Plan p;
  int boxes, objs, r;
  v_pool (); l0 = v_base (); boxes = v_box_live (); objs = v_obj_live (); vres_live = 0;
  plan_random (&p, &v_rng);
  plan_start (&p);
  if (v_chance (&v_rng, 20)) { p.keep_going = TRUE; dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (p.f), FALSE); }
  p.tell = dex_future_finally (dex_ref (p.f), told_cb, &p, NULL);
  if (v_chance (&v_rng, 50)) p.set = dex_future_then (dex_future_first (dex_ref (p.f), DEX_FUTURE (dex_promise_new ()), NULL), pass_cb, NULL, NULL);
  v_par_ctx (4, pr_thread, &p);
  r = look (&p, p.f);
  v_check (r != 0, "pair-pending", "a pair is still pending after the reply");
  if (r == 3) v_check (g_cancellable_is_cancelled (p.cancellable) && p.finished == 0, "pair-outcome", "reported as cancelled, but finish ran %d times and the operation is %scancelled", p.finished, g_cancellable_is_cancelled (p.cancellable) ? "" : "not ");
  else v_check (r == normal_outcome (&p) && p.finished == (r != 4), "pair-outcome", "outcome %d after finish ran %d times", r, p.finished);
  if (g_cancellable_is_cancelled (p.cancellable)) v_check (p.cancel_begun || !p.keep_going, "pair-cancel", "an operation that is to go on was cancelled");
  v_drain ();
  v_check (p.told <= 1 && (p.told == 0 || p.told_state == r), "pair-told", "the callback saw outcome %d, a reader %d", p.told_state, r);
  v_sigf ("%d %d %d %d %d", r, p.told, p.cancel_begun, p.keep_going, p.kind);
  v_sample ("outcome %d, callback ran %d times, %scancelled by hand", r, p.told, p.cancel_begun ? "" : "not ");
  v_eval (4); v_event (4);
  dex_clear (&p.f);
  v_expect_live (l0, "pairs");
  plan_clear (&p);
  v_check (v_box_live () == boxes && v_obj_live () == objs && vres_live == 0, "pair-leak", "boxed %d objects %d results %d left", v_box_live () - boxes, v_obj_live () - objs, vres_live);
}

/* ================================================================ C25, hand-made wrappers */
static gpointer
pret_go (gpointer d)
{
  gpointer *a = d;
  DexAsyncPair *ap = a[0];
  int n = GPOINTER_TO_INT (a[1]);
  if (v_out_is_rej (n)) dex_async_pair_return_error (ap, v_out_error (n));
  else
    switch (v_out_type (n))
      {
      case 2: dex_async_pair_return_int64 (ap, (gint64) n * 0x100000001ll); break;
      case 3: dex_async_pair_return_uint64 (ap, (guint64) n * 0x100000001ull); break;
      case 5: dex_async_pair_return_string (ap, g_strdup_printf ("value-%d", n)); break;
      case 6: dex_async_pair_return_boxed (ap, V_TYPE_BOX, v_box_new (n)); break;
      case 7: dex_async_pair_return_object (ap, v_obj_new (n)); break;
      case 8: dex_async_pair_return_variant (ap, g_variant_ref_sink (g_variant_new ("(is)", n, "v"))); break;
      default: dex_async_pair_return_boolean (ap, n % 3 == 0);
      }
  dex_unref (ap);
  return NULL;
}
static void
s_pair_return (void)
{
  gint64 l0;
  int boxes, objs, n = 1 + v_below (&v_rng, 1000000), want, got = 0;
  DexAsyncPair *ap;
  DexFuture *f, *t;
  gpointer a[2];
  guint how = v_below (&v_rng, 3);
  v_pool (); l0 = v_base (); boxes = v_box_live (); objs = v_obj_live ();
  ap = (DexAsyncPair *) dex_object_create_instance (DEX_TYPE_ASYNC_PAIR);
  f = DEX_FUTURE (ap);
  t = dex_future_finally (dex_ref (f), pass_cb, NULL, NULL);
  a[0] = dex_ref (ap); a[1] = GINT_TO_POINTER (n);
  want = n & 1 ? n : v_out_type (n) == 2 || v_out_type (n) == 3 || (v_out_type (n) >= 5 && v_out_type (n) <= 8) ? n : n % 3 == 0 ? V_OUT_TRUE : V_OUT_FALSE;
  if (how == 0) pret_go (a);
  else { GThread *th = g_thread_new ("reply", pret_go, a); if (how == 2) dex_clear (&t); g_thread_join (th); }
  got = v_out_read (f, "pair");
  v_check (got == want, "pair-return", "a pair settled by hand with %s is %s", v_out_str (want), v_out_str (got));
  if (t) { v_run_until_settled (t, "the callback of a pair"); got = v_out_read (t, "block"); v_check (got == want, "pair-return", "a callback of a pair settled by hand with %s got %s", v_out_str (want), v_out_str (got)); }
  v_eval (2); v_event (1); v_sigf ("%d %d %d", v_out_type (n), n & 1, how);
  v_sample ("%s", v_out_str (want));
  dex_clear (&t); dex_unref (f);
  v_drain ();
  v_expect_live (l0, "pairs");
  v_check (v_box_live () == boxes && v_obj_live () == objs, "pair-leak", "boxed %d objects %d left", v_box_live () - boxes, v_obj_live () - objs);
}

/* ================================================================ C26 */
enum { ON_MAIN, ON_MAIN_CTX, ON_MAIN_FIBER, ON_POOL_ITEM, ON_POOL_FIBER, ON_N };
typedef struct {
  guint where; int n; int src_kind;       /* how the future is made */
  GCancellable *c; DexPromise *p; GObject *source;
  GMainContext *ctx; GThread *thread; gboolean own_ctx;
  int returned, called, done, gone, started;
  int prio; char *name; gboolean static_name, no_cb, later;
  int got; GAsyncResult *stored;
  int complete_begun, cancel_begun, cancel_done, cancelled_first;
  GRand *r;
} Op;
static void gone_cb (gpointer d, GObject *o) { Op *op = d; g_atomic_int_set (&op->gone, 1); }
/* through the propagate function that fits, outcome encoded as everywhere */
static int
propagate (Op *op, DexAsyncResult *res)
{
  GError *e = NULL;
  int t = v_out_is_rej (op->n) ? (op->n / 2) % 4 + 20 : op->n == V_OUT_TRUE || op->n == V_OUT_FALSE ? 10 : v_out_type (op->n), r;
  DexFuture *f = dex_async_result_dup_future (res);
  v_check (f != NULL, "result-no-future", "no future to be had from a result");
  v_check (!dex_future_is_pending (f), "result-pending", "the future of a finished result is pending");
  r = v_out_read (f, "future of a result");
  dex_unref (f);
#define ERR(cond) if (e) { int _x; if (cond) v_fail ("result-value-and-error", "propagate returned a value and an error"); _x = v_out_of_error (e, "propagate"); g_clear_error (&e); v_check (_x == r, "result-propagate", "propagate gave %s, the future has %s", v_out_str (_x), v_out_str (r)); return _x; }
  switch (t)
    {
    case 0: case 1: { gssize x = dex_async_result_propagate_int (res, &e); ERR (x); v_check (x == op->n, "result-propagate", "propagate_int gave %zd for %d", x, op->n); break; }
    case 2: { gssize x = dex_async_result_propagate_int (res, &e); ERR (x); v_check (x == (gssize) op->n * 0x100000001ll, "result-propagate", "propagate_int gave %zd for %d", x, op->n); break; }
    case 3: { gssize x = dex_async_result_propagate_int (res, &e); ERR (x); v_check ((guint64) x == (guint64) op->n * 0x100000001ull, "result-propagate", "propagate_int gave %zd for %d", x, op->n); break; }
    case 4: { double x = dex_async_result_propagate_double (res, &e); ERR (x); v_check (x == op->n + 0.25, "result-propagate", "propagate_double gave %g for %d", x, op->n); break; }
    case 6: { VBox *b = dex_async_result_propagate_pointer (res, &e); ERR (b); v_check (b && b->id == op->n, "result-propagate", "propagate_pointer gave another box"); v_box_free (b); break; }
    case 7: { GObject *o = dex_async_result_propagate_pointer (res, &e); ERR (o); v_check (o && v_obj_id (o) == op->n, "result-propagate", "propagate_pointer gave another object"); g_object_unref (o); break; }
    case 8: { GVariant *v = dex_async_result_propagate_pointer (res, &e); int x; const char *s; ERR (v); g_variant_get (v, "(i&s)", &x, &s); v_check (x == op->n, "result-propagate", "propagate_pointer gave another variant"); g_variant_unref (v); break; }
    case 9: { gpointer x = dex_async_result_propagate_pointer (res, &e); ERR (x); v_check (GPOINTER_TO_SIZE (x) == (gsize) op->n, "result-propagate", "propagate_pointer gave %p for %d", x, op->n); break; }
    case 10: { gboolean x = dex_async_result_propagate_boolean (res, &e); ERR (x); v_check (x == (op->n == V_OUT_TRUE), "result-propagate", "propagate_boolean gave %d", x); break; }
    case 20: { gssize x = dex_async_result_propagate_int (res, &e); ERR (x); v_fail ("result-error-lost", "no error for %s", v_out_str (r)); break; }
    case 21: { gpointer x = dex_async_result_propagate_pointer (res, &e); ERR (x); v_fail ("result-error-lost", "no error for %s", v_out_str (r)); break; }
    case 22: { double x = dex_async_result_propagate_double (res, &e); ERR (x); v_fail ("result-error-lost", "no error for %s", v_out_str (r)); break; }
    default: { gboolean x = dex_async_result_propagate_boolean (res, &e); ERR (x); v_fail ("result-error-lost", "no error for %s", v_out_str (r)); break; }
    }
  v_check (r == op->n, "result-propagate", "the future of a result is %s", v_out_str (r));
  return op->n;
}
static void
ready_cb (GObject *source, GAsyncResult *res, gpointer data)
{
  Op *op = data;
  GSource *src = g_main_current_source ();
  GObject *so;
  v_check (g_atomic_int_add (&op->called, 1) == 0, "result-twice", "the callback of a result was called twice");
  v_check (DEX_IS_ASYNC_RESULT (res), "result-object", "the callback got another result");
  v_check (source == op->source, "result-source", "the callback got another source object");
  so = g_async_result_get_source_object (res);
  v_check (so == op->source, "result-source", "g_async_result_get_source_object() gave another object");
  if (so) g_object_unref (so);
  v_check (g_async_result_get_user_data (res) == data, "result-user-data", "g_async_result_get_user_data() gave %p for %p", g_async_result_get_user_data (res), data);
  v_check (g_main_context_is_owner (op->ctx), "result-context", "the callback ran outside the context the operation was started in (started %d)", op->where);
  if (op->own_ctx) v_check (op->thread == g_thread_self (), "result-thread", "the callback ran on another thread than the one the operation was started on (started %d)", op->where);
  if (op->own_ctx) v_check (op->returned, "result-reentrant", "the callback ran before the start function returned (started %d)", op->where);
  v_check (src && g_source_get_context (src) == op->ctx, "result-context", "the callback ran from a source of another context");
  v_check (src && g_source_get_priority (src) == op->prio, "result-priority", "the callback ran at priority %d, not %d", g_source_get_priority (src), op->prio);
  v_check (!g_strcmp0 (dex_async_result_get_name (DEX_ASYNC_RESULT (res)), op->name), "result-name", "the name of a result is '%s'", dex_async_result_get_name (DEX_ASYNC_RESULT (res)));
  if (op->later) { op->stored = g_object_ref (res); op->got = -2; }
  else op->got = propagate (op, DEX_ASYNC_RESULT (res));
  v_eval (1); v_event (1);
  g_atomic_int_set (&op->done, 1);
}
static DexFuture *giver (gpointer d) { return v_out_static (GPOINTER_TO_INT (d)); }
static DexFuture *
waiter (gpointer d)
{
  /* may go on after its operation was cancelled */
  dex_await (dex_ref (d), NULL);
  return dex_ref (d);
}
static void
start (Op *op)
{
  DexAsyncResult *res;
  DexFuture *f;
  op->ctx = g_main_context_ref_thread_default ();
  op->thread = g_thread_self ();
  res = dex_async_result_new (op->source, op->c, op->no_cb ? NULL : ready_cb, op);
  g_object_weak_ref (G_OBJECT (res), gone_cb, op);
  if (op->name) { if (op->static_name) dex_async_result_set_static_name (res, op->name); else { char *nm = g_strdup (op->name); dex_async_result_set_name (res, nm); memset (nm, 'x', strlen (nm)); g_free (nm); } }
  if (op->prio) dex_async_result_set_priority (res, op->prio);
  v_check (dex_async_result_dup_future (res) == NULL, "result-future", "a result has a future before it awaits one");
  switch (op->src_kind)
    {
    case 0: f = v_out_static (op->n); break;
    case 1: f = dex_ref (op->p); break;
    case 2: f = dex_future_finally (dex_ref (op->p), pass_cb, NULL, NULL); break;
    case 3: f = dex_scheduler_spawn (NULL, 0, giver, GINT_TO_POINTER (op->n), NULL); break;
    case 4: f = dex_scheduler_spawn (v_pool (), 0, giver, GINT_TO_POINTER (op->n), NULL); break;
    default: f = dex_scheduler_spawn (v_pool (), 0, waiter, dex_ref (op->p), dex_unref); break;
    }
  dex_async_result_await (res, f);
  v_check (op->called == 0 || !op->own_ctx, "result-reentrant", "the callback ran before the start function returned");
  op->returned = 1;
  if (op->src_kind == 1 || op->src_kind == 2 || op->src_kind == 5)
    {
      DexFuture *df = dex_async_result_dup_future (res);
      v_check (df != NULL, "result-no-future", "no future to be had from a result that awaits one");
      dex_unref (df);
    }
  if (op->where <= ON_MAIN_CTX && op->src_kind == 1 && op->c == NULL && !g_atomic_int_get (&op->complete_begun))
    {
      GError *e = NULL;
      gssize x = dex_async_result_propagate_int (res, &e);
      if (!g_atomic_int_get (&op->complete_begun))
        v_check (x == 0 && g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "result-pending", "a result whose future is pending gave %zd and %s", x, e ? e->message : "no error");
      g_clear_error (&e);
    }
  g_object_unref (res);
  g_atomic_int_set (&op->started, 1);
}
static void item_cb (gpointer d) { start (d); }
static DexFuture *fiber_cb (gpointer d) { start (d); return dex_future_new_true (); }
static void
launch (Op *op)
{
  switch (op->where)
    {
    case ON_MAIN: op->own_ctx = TRUE; start (op); break;
    case ON_MAIN_CTX: { GMainContext *x = g_main_context_new (); op->own_ctx = TRUE; g_main_context_push_thread_default (x); start (op); g_main_context_pop_thread_default (x); g_main_context_unref (x); } break;
    case ON_MAIN_FIBER: op->own_ctx = TRUE; dex_future_disown (dex_scheduler_spawn (NULL, 0, fiber_cb, op, NULL)); break;
    case ON_POOL_ITEM: op->own_ctx = TRUE; dex_scheduler_push (v_pool (), item_cb, op); break;
    default: op->own_ctx = TRUE; dex_future_disown (dex_scheduler_spawn (v_pool (), 0, fiber_cb, op, NULL)); break;
    }
}
typedef struct { Op *o; guint n; } Ops;
static void
op_complete (Op *op)
{
  if (g_atomic_int_add (&op->complete_begun, 1) == 0)
    {
      /* cancelled while it waited */
      op->cancelled_first = g_atomic_int_get (&op->cancel_done) && g_atomic_int_get (&op->started) && (op->src_kind == 1 || op->src_kind == 2 || op->src_kind == 5);
      v_out_complete (op->p, op->n, TRUE);
    }
}
static void op_cancel (Op *op) { g_atomic_int_set (&op->cancel_begun, 1); g_cancellable_cancel (op->c); g_atomic_int_set (&op->cancel_done, 1); }
static void
rs_thread (guint idx, VRng *rng, gpointer data)
{
  Ops *s = data;
  for (guint i = 0; i < s->n; i++)
    {
      Op *op = &s->o[(i * 7 + idx) % s->n];
      if (v_chance (rng, 30)) v_rnd_usleep (rng, 80);
      if (idx == 0) op_complete (op);
      else if (op->c && !g_atomic_int_get (&op->cancel_begun) && v_chance (rng, 60))
        {
          op_cancel (op);
        }
    }
}

static gboolean
ops_done (gpointer d)
{
  Ops *s = d;
  gboolean all = TRUE;
  for (guint i = 0; i < s->n; i++)
    {
      Op *op = &s->o[i];
      if (op->where == ON_MAIN_CTX && op->ctx)
        {
          g_main_context_push_thread_default (op->ctx);
          while (g_main_context_iteration (op->ctx, FALSE));
          g_main_context_pop_thread_default (op->ctx);
        }
      if (!g_atomic_int_get (&op->started)) all = FALSE;
      else if (!op->no_cb && !g_atomic_int_get (&op->done)) all = FALSE;
      else if (!op->later && !g_atomic_int_get (&op->gone)) all = FALSE;
    }
  return all;
}
static gboolean
ops_released (gpointer d)
{
  Ops *s = d;
  for (guint i = 0; i < s->n; i++)
    {
      Op *op = &s->o[i];
      if (!g_atomic_int_get (&op->gone)) return FALSE;
      if (op->source && g_atomic_int_get (&op->source->ref_count) != 1) return FALSE;
      if (op->c && g_atomic_int_get (&G_OBJECT (op->c)->ref_count) != 1) return FALSE;
    }
  return TRUE;
}
static void
results (gboolean race)
{
  gint64 l0;
  guint n = 1 + v_below (&v_rng, 8);
  Ops s = { g_new0 (Op, n), n };
  int boxes, objs;
  uint64_t sig = n;
  static const int prios[] = { 0, 0, G_PRIORITY_HIGH, G_PRIORITY_DEFAULT_IDLE, 7 };
  v_pool (); l0 = v_base (); boxes = v_box_live (); objs = v_obj_live ();
  for (guint i = 0; i < n; i++)
    {
      Op *op = &s.o[i];
      op->where = v_below (&v_rng, ON_N);
      op->src_kind = v_below (&v_rng, 6);
      do op->n = 2 + v_below (&v_rng, 1000000); while (!v_out_is_rej (op->n) && v_out_type (op->n) == 5);
      if (v_chance (&v_rng, 12)) op->n = v_chance (&v_rng, 50) ? V_OUT_TRUE : V_OUT_FALSE;
      op->p = dex_promise_new ();
      if (op->n == V_OUT_TRUE || op->n == V_OUT_FALSE) op->src_kind = 1;
      if (v_chance (&v_rng, 60)) op->source = v_obj_new (5);
      if (v_chance (&v_rng, 45)) op->c = g_cancellable_new ();
      op->prio = prios[v_below (&v_rng, 5)];
      if (v_chance (&v_rng, 40)) { op->name = g_strdup_printf ("op%u", i); op->static_name = v_chance (&v_rng, 50); }
      op->no_cb = v_chance (&v_rng, 8);
      op->later = !op->no_cb && v_chance (&v_rng, 30);
      if (op->n == V_OUT_TRUE || op->n == V_OUT_FALSE) { op->complete_begun = 1; dex_promise_resolve_boolean (op->p, op->n == V_OUT_TRUE); }
      else if (v_chance (&v_rng, 20)) op_complete (op);
      if (op->c && v_chance (&v_rng, 10)) { op_cancel (op); }
    }
  for (guint i = 0; i < n; i++) launch (&s.o[i]);
  if (race) v_par_ctx (2, rs_thread, &s);
  else
    {
      for (guint k = 0; k < n * 4; k++)
        {
          Op *op = &s.o[v_below (&v_rng, n)];
          switch (v_below (&v_rng, 4))
            {
            case 0: op_complete (op); break;
            case 1: if (op->c && !op->cancel_begun) { op_cancel (op); } break;
            default: g_main_context_iteration (NULL, FALSE);
            }
        }
    }
  for (guint i = 0; i < n; i++) op_complete (&s.o[i]);
  v_run_until (ops_done, &s, "the callback of a result");
  v_drain ();
  for (guint i = 0; i < n; i++)
    {
      Op *op = &s.o[i];
      if (op->later) { op->got = propagate (op, DEX_ASYNC_RESULT (op->stored)); v_check (g_async_result_get_user_data (op->stored) == op, "result-user-data", "the user data is gone after the callback"); g_object_unref (op->stored); }
      if (!op->no_cb)
        {
          v_check (op->got == op->n || (op->got == CANCELLED && op->cancel_begun), "result-outcome", "an operation awaiting %s reported %s", v_out_str (op->n), v_out_str (op->got));
          if (op->cancelled_first)
            v_check (op->got == CANCELLED, "result-cancel-lost", "an operation that was cancelled first reported %s (started %d)", v_out_str (op->got), op->where);
        }
      sig = v_hash_add (sig, op->where * 64 + op->src_kind * 8 + (op->got == CANCELLED) * 4 + op->later * 2 + op->no_cb);
      dex_clear (&op->p);
      g_main_context_unref (op->ctx);
    }
  v_run_until (ops_released, &s, "results and what they refer to are released");
  v_expect_live (l0, "results");
  for (guint i = 0; i < n; i++)
    {
      Op *op = &s.o[i];
      if (op->source) g_object_unref (op->source);
      if (op->c) g_object_unref (op->c);
      g_free (op->name);
    }
  v_check (v_box_live () == boxes && v_obj_live () == objs, "result-leak", "boxed %d objects %d left", v_box_live () - boxes, v_obj_live () - objs);
  v_sig (sig);
  v_sample ("%u operations, first started in place %u with %s, reported %s", n, s.o[0].where, v_out_str (s.o[0].n), v_out_str (s.o[0].got));
  g_free (s.o);
}
static void s_result (void) { results (FALSE); }
static void s_result_race (void) { results (TRUE); }

/* numbers at the edges of their types come out of a result as they went in */
static guint64
edge_bits (VRng *r)
{
  switch (v_below (r, 6))
    {
    case 0: return v_below (r, 3);
    case 1: return G_MAXUINT64 - v_below (r, 3);
    case 2: return ((guint64) 1 << v_below (r, 64)) - v_below (r, 2);
    case 3: return (guint64) G_MAXINT32 + v_below (r, 4) - 1;
    case 4: return (guint64) G_MAXUINT32 - v_below (r, 3);
    default: return v_rand (r);
    }
}
/* asked too early every propagate function has an error and nothing else */
static void
rv_early (DexAsyncResult *res, const char *when)
{
  for (int k = 0; k < 4; k++)
    {
      GError *e = NULL;
      gboolean none = TRUE;
      switch (k)
        {
        case 0: none = dex_async_result_propagate_int (res, &e) == 0; break;
        case 1: none = dex_async_result_propagate_double (res, &e) == .0; break;
        case 2: none = !dex_async_result_propagate_boolean (res, &e); break;
        default: none = dex_async_result_propagate_pointer (res, &e) == NULL; break;
        }
      v_check (none && g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "result-early", "propagate %d %s gave %s and %s", k, when, none ? "nothing" : "a value", e ? e->message : "no error");
      g_clear_error (&e);
      v_eval (1);
    }
}
static int rv_called;
static void rv_ready (GObject *o, GAsyncResult *r, gpointer d) { rv_called++; }
static void
s_result_values (void)
{
  gint64 l0 = v_live ();
  guint n = 4 + v_below (&v_rng, 12);
  uint64_t sig = 5;
  for (guint i = 0; i < n; i++)
    {
      guint64 b = edge_bits (&v_rng);
      guint kind = v_below (&v_rng, 10), reads = 1 + v_below (&v_rng, 2);
      gboolean late = v_chance (&v_rng, 40), cb = v_chance (&v_rng, 60);
      DexPromise *p = dex_promise_new ();
      DexAsyncResult *res = dex_async_result_new (NULL, NULL, cb ? rv_ready : NULL, NULL);
      double d; float fl;
      memcpy (&d, &b, 8);
      { guint32 x = (guint32) b; memcpy (&fl, &x, 4); }
      if (d != d) d = -0.0;
      if (fl != fl) fl = 3.4028234e38f;
      rv_called = 0;
      if (v_chance (&v_rng, 20)) rv_early (res, "before anything is awaited");
      if (late) dex_async_result_await (res, dex_ref (p));
      if (late && v_chance (&v_rng, 20)) rv_early (res, "before the awaited future settles");
      switch (kind)
        {
        case 0: dex_promise_resolve_int (p, (int) b); break;
        case 1: dex_promise_resolve_uint (p, (guint) b); break;
        case 2: dex_promise_resolve_int64 (p, (gint64) b); break;
        case 3: dex_promise_resolve_uint64 (p, b); break;
        case 4: dex_promise_resolve_long (p, (glong) b); break;
        case 5: dex_promise_resolve_ulong (p, (gulong) b); break;
        case 6: dex_promise_resolve_double (p, d); break;
        case 7: dex_promise_resolve_float (p, fl); break;
        case 8: dex_promise_resolve_boolean (p, b & 1); break;
        default: { GValue v = G_VALUE_INIT; g_value_init (&v, G_TYPE_POINTER); g_value_set_pointer (&v, GSIZE_TO_POINTER (b)); dex_promise_resolve (p, &v); g_value_unset (&v); break; }
        }
      if (!late) dex_async_result_await (res, dex_ref (p));
      for (int k = 0; cb && k < 100000 && !rv_called; k++) if (!g_main_context_iteration (NULL, FALSE)) g_usleep (20);
      v_check (rv_called == (cb ? 1 : 0), "result-calls", "the callback was called %d times", rv_called);
      while (reads--)
        {
          GError *e = NULL;
          if (kind <= 5)
            {
              gssize want = kind == 0 ? (gssize) (int) b : kind == 1 ? (gssize) (guint) b : (gssize) b, got = dex_async_result_propagate_int (res, &e);
              v_check (!e && got == want, "result-propagate", "propagate_int gave %zd for %zd (kind %u): %s", got, want, kind, e ? e->message : "no error");
            }
          else if (kind <= 7)
            {
              double want = kind == 6 ? d : (double) fl, got = dex_async_result_propagate_double (res, &e);
              v_check (!e && !memcmp (&got, &want, 8), "result-propagate", "propagate_double gave %.20g for %.20g: %s", got, want, e ? e->message : "no error");
            }
          else if (kind == 8)
            { gboolean got = dex_async_result_propagate_boolean (res, &e); v_check (!e && got == (gboolean) (b & 1), "result-propagate", "propagate_boolean gave %d for %d", got, (int) (b & 1)); }
          else
            { gpointer got = dex_async_result_propagate_pointer (res, &e); v_check (!e && got == GSIZE_TO_POINTER (b), "result-propagate", "propagate_pointer gave %p for %p", got, GSIZE_TO_POINTER (b)); }
          g_clear_error (&e);
          v_eval (1);
        }
      sig = v_hash_add (v_hash_add (sig, kind), b);
      g_object_unref (res); dex_unref (p);
      v_event (1);
    }
  v_sig (sig);
  v_sample ("%u numbers of all types through results", n);
  v_drain ();
  v_expect_live (l0, "results");
}

static const VScenario scenarios[] = {
  { "pair", s_pair, 200 }, { "pair-race", s_pair_race, 150 }, { "pair-return", s_pair_return, 100 },
  { "result", s_result, 100 }, { "result-values", s_result_values, 100 }, { "result-race", s_result_race, 100 },
  { NULL }
};
int
main (int argc, char **argv)
{
  /* classes that GLib makes on first use, behind locks the race detector does not see */
  g_type_class_ref (DEX_TYPE_ASYNC_RESULT); g_type_class_ref (vres_get_type ()); g_type_class_ref (G_TYPE_FILE_TYPE); g_type_class_ref (G_TYPE_FILE_CREATE_FLAGS); g_type_class_ref (G_TYPE_CANCELLABLE);
  return v_main (argc, argv, scenarios);
}
