/* vout.h - outcomes encoded as integers, in payloads of many types
 *
 * n even: resolved, type picked by n, n recoverable from the payload
 * n odd:  rejected with domain V_ERROR, code n, message "err-n"
 */
#pragma once
#include "vrt.h"

#define V_ERROR (g_quark_from_static_string ("v-error-quark"))
#define V_PENDING (-1)
#define V_OUT_TRUE 2000002     /* boolean TRUE */
#define V_OUT_FALSE 2000004
#define V_OUT_DEXERR 3000001   /* + 2 * code */
#define V_OUT_IOERR 4000001    /* + 2 * code */

typedef enum { V_E0 = 0 } VEnumDummy;

static inline gboolean v_out_is_rej (int n) { return n & 1; }

static inline int v_out_type (int n) { return (n / 2) % 10; }

static inline void
v_out_value (GValue *v, int n)
{
  switch (v_out_type (n))
    {
    case 0: g_value_init (v, G_TYPE_INT); g_value_set_int (v, n); break;
    case 1: g_value_init (v, G_TYPE_UINT); g_value_set_uint (v, n); break;
    case 2: g_value_init (v, G_TYPE_INT64); g_value_set_int64 (v, (gint64)n * 0x100000001ll); break;
    case 3: g_value_init (v, G_TYPE_UINT64); g_value_set_uint64 (v, (guint64)n * 0x100000001ull); break;
    case 4: g_value_init (v, G_TYPE_DOUBLE); g_value_set_double (v, n + 0.25); break;
    case 5: { char b[64]; g_snprintf (b, sizeof b, "value-%d", n); g_value_init (v, G_TYPE_STRING); g_value_set_string (v, b); } break;
    case 6: g_value_init (v, V_TYPE_BOX); g_value_take_boxed (v, v_box_new (n)); break;
    case 7: { GObject *o = v_obj_new (n); g_value_init (v, V_TYPE_OBJ); g_value_take_object (v, o); } break;
    case 8: g_value_init (v, G_TYPE_VARIANT); g_value_take_variant (v, g_variant_ref_sink (g_variant_new ("(is)", n, "v"))); break;
    default: g_value_init (v, G_TYPE_POINTER); g_value_set_pointer (v, GSIZE_TO_POINTER ((gsize)n)); break;
    }
}

static inline GError *v_out_error (int n) { return g_error_new (V_ERROR, n, "err-%d", n); }

static inline int
v_out_of_error (const GError *e, const char *where)
{
  if (e->domain == DEX_ERROR) return V_OUT_DEXERR + 2 * e->code;
  if (e->domain == G_IO_ERROR) return V_OUT_IOERR + 2 * e->code;
  if (e->domain == V_ERROR)
    {
      char b[64];
      g_snprintf (b, sizeof b, "err-%d", e->code);
      if (!(e->code & 1) || strcmp (b, e->message)) v_fail ("outcome-torn", "%s: error code %d with message '%s'", where, e->code, e->message);
      return e->code;
    }
  v_fail ("outcome-unknown", "%s: error %s %d %s", where, g_quark_to_string (e->domain), e->code, e->message);
  return 0;
}

static inline int
v_out_of_value (const GValue *v, const char *where)
{
  int n = -7;
  GType t = G_VALUE_TYPE (v);
  int want;
  if (t == G_TYPE_BOOLEAN) return g_value_get_boolean (v) ? V_OUT_TRUE : V_OUT_FALSE;
  if (t == G_TYPE_INT) { n = g_value_get_int (v); want = 0; }
  else if (t == G_TYPE_UINT) { n = g_value_get_uint (v); want = 1; }
  else if (t == G_TYPE_INT64) { gint64 x = g_value_get_int64 (v); n = (int)(x & 0x7fffffff); if (x != (gint64)n * 0x100000001ll) n = -8; want = 2; }
  else if (t == G_TYPE_UINT64) { guint64 x = g_value_get_uint64 (v); n = (int)(x & 0x7fffffff); if (x != (guint64)n * 0x100000001ull) n = -8; want = 3; }
  else if (t == G_TYPE_DOUBLE) { double x = g_value_get_double (v); n = (int)x; if (x != n + 0.25) n = -8; want = 4; }
  else if (t == G_TYPE_STRING) { const char *s = g_value_get_string (v); if (!s || sscanf (s, "value-%d", &n) != 1) n = -8; want = 5; }
  else if (t == V_TYPE_BOX) { n = v_box_id_of (v); want = 6; }
  else if (t == V_TYPE_OBJ) { GObject *o = g_value_get_object (v); n = o ? v_obj_id (o) : -8; want = 7; }
  else if (t == G_TYPE_VARIANT) { GVariant *x = g_value_get_variant (v); const char *s; g_variant_get (x, "(i&s)", &n, &s); want = 8; }
  else if (t == G_TYPE_POINTER) { n = (int)GPOINTER_TO_SIZE (g_value_get_pointer (v)); want = 9; }
  else { v_fail ("outcome-unknown", "%s: value of type %s", where, g_type_name (t)); return 0; }
  if (n < 0 || (n & 1) || v_out_type (n) != want)
    v_fail ("outcome-torn", "%s: %s value does not decode (%d)", where, g_type_name (t), n);
  return n;
}

/* outcome of a future as the public API shows it, V_PENDING while pending */
static inline int
v_out_read (DexFuture *f, const char *where)
{
  DexFutureStatus st = dex_future_get_status (f);
  GError *e = NULL;
  const GValue *v;
  int n;
  if (st == DEX_FUTURE_STATUS_PENDING) return V_PENDING;
  v = dex_future_get_value (f, &e);
  if ((v != NULL) != (st == DEX_FUTURE_STATUS_RESOLVED) || (e != NULL) != (st == DEX_FUTURE_STATUS_REJECTED))
    v_fail ("status-mismatch", "%s: status %d but value %p error %s", where, st, v, e ? e->message : "none");
  if (dex_future_is_resolved (f) != (st == DEX_FUTURE_STATUS_RESOLVED) || dex_future_is_rejected (f) != (st == DEX_FUTURE_STATUS_REJECTED) || dex_future_is_pending (f))
    v_fail ("status-mismatch", "%s: is_* disagree with status %d", where, st);
  n = v ? v_out_of_value (v, where) : v_out_of_error (e, where);
  g_clear_error (&e);
  return n;
}

/* completes through a random one of the entry points that fit n */
static inline void
v_out_complete (DexPromise *p, int n, gboolean shortcut)
{
  if (v_out_is_rej (n)) { dex_promise_reject (p, v_out_error (n)); return; }
  if (shortcut)
    switch (v_out_type (n))
      {
      case 0: dex_promise_resolve_int (p, n); return;
      case 1: dex_promise_resolve_uint (p, n); return;
      case 2: dex_promise_resolve_int64 (p, (gint64)n * 0x100000001ll); return;
      case 3: dex_promise_resolve_uint64 (p, (guint64)n * 0x100000001ull); return;
      case 4: dex_promise_resolve_double (p, n + 0.25); return;
      case 5: dex_promise_resolve_string (p, g_strdup_printf ("value-%d", n)); return;
      case 7: { GObject *o = v_obj_new (n); dex_promise_resolve_object (p, o); return; }
      case 8: dex_promise_resolve_variant (p, g_variant_ref_sink (g_variant_new ("(is)", n, "v"))); return;
      default: break;
      }
  {
    GValue v = G_VALUE_INIT;
    v_out_value (&v, n);
    dex_promise_resolve (p, &v);
    g_value_unset (&v);
  }
}

/* an already settled future */
static inline DexFuture *
v_out_static (int n)
{
  DexFuture *f;
  GValue v = G_VALUE_INIT;
  if (v_out_is_rej (n)) return dex_future_new_for_error (v_out_error (n));
  v_out_value (&v, n);
  f = dex_future_new_for_value (&v);
  g_value_unset (&v);
  return f;
}

static inline const char *
v_out_str (int n)
{
  static __thread char b[4][48]; static __thread int k;
  char *s = b[k++ & 3];
  if (n == V_PENDING) return "pending";
  if (n == V_OUT_TRUE) return "TRUE";
  if (n == V_OUT_FALSE) return "FALSE";
  if (n >= V_OUT_IOERR) g_snprintf (s, 48, "gio-error-%d", (n - V_OUT_IOERR) / 2);
  else if (n >= V_OUT_DEXERR) g_snprintf (s, 48, "dex-error-%d", (n - V_OUT_DEXERR) / 2);
  else g_snprintf (s, 48, "%s-%d", (n & 1) ? "reject" : "resolve", n);
  return s;
}
