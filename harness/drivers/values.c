/* C28: values and errors come back as they went in */
#include "vout.h"
#include "dex-fd-private.h"
#include <math.h>
#include <float.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <limits.h>

enum { T_INT, T_UINT, T_INT64, T_UINT64, T_FLOAT, T_DOUBLE, T_BOOLEAN, T_STRING, T_POINTER, T_BOXED, T_OBJECT, T_VARIANT, T_ENUM, T_FLAGS, T_LONG, T_ULONG, T_FD, T_ERROR, N_T };
static const char *tname[] = { "int", "uint", "int64", "uint64", "float", "double", "boolean", "string", "pointer", "boxed", "object", "variant", "enum", "flags", "long", "ulong", "fd", "error" };

typedef struct {
  int t;
  union { int i; guint u; gint64 i64; guint64 u64; float f; double d; gboolean b; char *s; gpointer p; VBox *box; GObject *obj; GVariant *var; glong l; gulong ul; int fd; } v;
  struct stat st;
  GType dyn;                      /* object: dynamic type */
  GQuark dom; int code; char *msg;
  int in;                         /* how it goes in */
} Val;

static const guint64 odd[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x0000000000000001, 0x7f800000, 0xff800000, 0x7fc00001, 0x00000001, 0xfffffffffffffff0 };
static guint64 bits (VRng *r) { return v_chance (r, 60) ? odd[v_below (r, G_N_ELEMENTS (odd))] : v_rand (r); }

static GVariant *
rnd_variant (VRng *r, int depth)
{
  switch (v_below (r, depth > 2 ? 6 : 9))
    {
    case 0: return g_variant_new_int32 ((int)bits (r));
    case 1: return g_variant_new_uint64 (bits (r));
    case 2: return g_variant_new_string (v_chance (r, 50) ? "" : "variant \xc3\xa9");
    case 3: return g_variant_new_boolean (v_chance (r, 50));
    case 4: return g_variant_new_byte ((guchar)bits (r));
    case 5: return g_variant_new_maybe (G_VARIANT_TYPE_INT32, v_chance (r, 50) ? NULL : g_variant_new_int32 (7));
    case 6: return g_variant_new_variant (rnd_variant (r, depth + 1));
    case 7: { GVariant *c[3]; int n = 1 + v_below (r, 3); for (int i = 0; i < n; i++) c[i] = rnd_variant (r, depth + 1); return g_variant_new_tuple (c, n); }
    default: { GVariantBuilder b; g_variant_builder_init (&b, G_VARIANT_TYPE ("a{sv}")); for (guint i = v_below (r, 4); i > 0; i--) { char k[16]; g_snprintf (k, 16, "k%u", i); g_variant_builder_add (&b, "{sv}", k, rnd_variant (r, depth + 1)); } return g_variant_builder_end (&b); }
    }
}

static GVariant *
copy_variant (GVariant *v)
{
  GBytes *b = g_variant_get_data_as_bytes (v);
  GVariant *c = g_variant_new_from_bytes (g_variant_get_type (v), b, TRUE);
  g_bytes_unref (b);
  return c;
}

static void
val_rnd (Val *x, VRng *r, int t)
{
  memset (x, 0, sizeof *x);
  x->t = t;
  switch (t)
    {
    case T_INT: x->v.i = (int)bits (r); break;
    case T_UINT: x->v.u = (guint)bits (r); break;
    case T_ENUM: { static const int e[] = { DEX_FUTURE_STATUS_PENDING, DEX_FUTURE_STATUS_RESOLVED, DEX_FUTURE_STATUS_REJECTED }; x->v.i = e[v_below (r, 3)]; } break;
    case T_FLAGS: x->v.u = (guint)bits (r); break;
    case T_INT64: x->v.i64 = (gint64)bits (r); break;
    case T_UINT64: x->v.u64 = bits (r); break;
    case T_LONG: x->v.l = (glong)bits (r); break;
    case T_ULONG: x->v.ul = (gulong)bits (r); break;
    case T_FLOAT: { guint32 b = (guint32)bits (r); if (isnan (*(float *)&b)) b |= 0x400000; memcpy (&x->v.f, &b, 4); } break;   /* quiet NaNs: loads may quiet the others */
    case T_DOUBLE: { guint64 b = bits (r); memcpy (&x->v.d, &b, 8); if (isnan (x->v.d)) { b |= 0x8000000000000ull; memcpy (&x->v.d, &b, 8); } } break;
    case T_BOOLEAN: x->v.b = v_chance (r, 50); break;
    case T_POINTER: x->v.p = (gpointer)(gsize)bits (r); break;
    case T_STRING:
      switch (v_below (r, 6))
        {
        case 0: x->v.s = NULL; break;
        case 1: x->v.s = g_strdup (""); break;
        case 2: { gsize n = v_below (r, 70000); x->v.s = g_malloc (n + 1); memset (x->v.s, 'a' + (int)v_below (r, 26), n); x->v.s[n] = 0; } break;
        case 3: x->v.s = g_strdup ("\xff\xfe not utf8 \n\t%s%n"); break;
        default: x->v.s = g_strdup_printf ("string-%" G_GUINT64_FORMAT, v_rand (r)); break;
        }
      break;
    case T_BOXED: x->v.box = v_chance (r, 10) ? NULL : v_box_new ((int)(v_rand (r) & 0xffff)); break;
    case T_OBJECT: x->v.obj = v_chance (r, 15) ? NULL : v_chance (r, 70) ? v_obj_new ((int)(v_rand (r) & 0xffff)) : G_OBJECT (g_cancellable_new ()); x->dyn = x->v.obj ? G_OBJECT_TYPE (x->v.obj) : G_TYPE_OBJECT; break;
    case T_VARIANT: x->v.var = v_chance (r, 10) ? NULL : g_variant_ref_sink (rnd_variant (r, 0)); if (x->v.var) g_variant_get_data (x->v.var); break;
    case T_FD:
      {
        char n[] = "values-XXXXXX";
        x->v.fd = g_mkstemp (n);
        g_assert (x->v.fd >= 0);
        unlink (n);
        fstat (x->v.fd, &x->st);
      }
      break;
    case T_ERROR:
      x->dom = v_chance (r, 30) ? G_IO_ERROR : v_chance (r, 50) ? DEX_ERROR : V_ERROR;
      x->code = (int)bits (r); x->msg = v_chance (r, 20) ? g_strdup ("") : g_strdup_printf ("message %" G_GUINT64_FORMAT " %%s", v_rand (r));
      break;
    default: g_assert_not_reached ();
    }
}
static void
val_clear (Val *x)
{
  switch (x->t)
    {
    case T_STRING: g_free (x->v.s); break;
    case T_BOXED: if (x->v.box) v_box_free (x->v.box); break;
    case T_OBJECT: g_clear_object (&x->v.obj); break;
    case T_VARIANT: g_clear_pointer (&x->v.var, g_variant_unref); break;
    case T_FD: close (x->v.fd); break;
    case T_ERROR: g_free (x->msg); break;
    default: break;
    }
}
static GType
val_type (Val *x)
{
  switch (x->t)
    {
    case T_INT: return G_TYPE_INT; case T_UINT: return G_TYPE_UINT; case T_INT64: return G_TYPE_INT64; case T_UINT64: return G_TYPE_UINT64;
    case T_FLOAT: return G_TYPE_FLOAT; case T_DOUBLE: return G_TYPE_DOUBLE; case T_BOOLEAN: return G_TYPE_BOOLEAN; case T_STRING: return G_TYPE_STRING;
    case T_POINTER: return G_TYPE_POINTER; case T_BOXED: return V_TYPE_BOX; case T_OBJECT: return x->dyn; case T_VARIANT: return G_TYPE_VARIANT;
    case T_ENUM: return DEX_TYPE_FUTURE_STATUS; case T_FLAGS: return G_TYPE_APPLICATION_FLAGS; case T_LONG: return G_TYPE_LONG; case T_ULONG: return G_TYPE_ULONG;
    case T_FD: return dex_fd_get_type (); default: return G_TYPE_INVALID;
    }
}
static void
val_to_gvalue (Val *x, GValue *v)
{
  g_value_init (v, val_type (x));
  switch (x->t)
    {
    case T_INT: g_value_set_int (v, x->v.i); break; case T_UINT: g_value_set_uint (v, x->v.u); break;
    case T_INT64: g_value_set_int64 (v, x->v.i64); break; case T_UINT64: g_value_set_uint64 (v, x->v.u64); break;
    case T_FLOAT: g_value_set_float (v, x->v.f); break; case T_DOUBLE: g_value_set_double (v, x->v.d); break;
    case T_BOOLEAN: g_value_set_boolean (v, x->v.b); break; case T_STRING: g_value_set_string (v, x->v.s); break;
    case T_POINTER: g_value_set_pointer (v, x->v.p); break; case T_BOXED: g_value_set_boxed (v, x->v.box); break;
    case T_OBJECT: g_value_set_object (v, x->v.obj); break; case T_VARIANT: g_value_set_variant (v, x->v.var); break;
    case T_ENUM: g_value_set_enum (v, x->v.i); break; case T_FLAGS: g_value_set_flags (v, x->v.u); break;
    case T_LONG: g_value_set_long (v, x->v.l); break; case T_ULONG: g_value_set_ulong (v, x->v.ul); break;
    case T_FD: g_value_set_boxed (v, &x->v.fd); break;
    default: g_assert_not_reached ();
    }
}

static gboolean v_is_fd (int fd, Val *x) { struct stat st; return fd >= 0 && fstat (fd, &st) == 0 && st.st_ino == x->st.st_ino && st.st_dev == x->st.st_dev; }

static void bad (Val *x, const char *how, const char *what) { v_fail ("value-changed", "%s given by way %d, read by %s: %s", tname[x->t], x->in, how, what); }
static void
same_gvalue (Val *x, const GValue *v, const char *how)
{
  gboolean ok = FALSE;
  v_eval (1);
  if (v == NULL) { bad (x, how, "nothing"); return; }
  if (x->t == T_OBJECT ? !g_type_is_a (G_VALUE_TYPE (v), G_TYPE_OBJECT) : G_VALUE_TYPE (v) != val_type (x)) { bad (x, how, G_VALUE_TYPE_NAME (v)); return; }
  switch (x->t)
    {
    case T_INT: ok = g_value_get_int (v) == x->v.i; break; case T_UINT: ok = g_value_get_uint (v) == x->v.u; break;
    case T_INT64: ok = g_value_get_int64 (v) == x->v.i64; break; case T_UINT64: ok = g_value_get_uint64 (v) == x->v.u64; break;
    case T_FLOAT: { float f = g_value_get_float (v); ok = memcmp (&f, &x->v.f, sizeof f) == 0; } break;
    case T_DOUBLE: { double f = g_value_get_double (v); ok = memcmp (&f, &x->v.d, sizeof f) == 0; } break;
    case T_BOOLEAN: ok = g_value_get_boolean (v) == x->v.b; break;
    case T_STRING: ok = g_strcmp0 (g_value_get_string (v), x->v.s) == 0; break;
    case T_POINTER: ok = g_value_get_pointer (v) == x->v.p; break;
    case T_BOXED: { VBox *b = g_value_get_boxed (v); ok = (b == NULL) == (x->v.box == NULL) && (!b || v_box_id_of (v) == x->v.box->id); } break;
    case T_OBJECT: ok = g_value_get_object (v) == x->v.obj; break;
    case T_VARIANT: { GVariant *b = g_value_get_variant (v); ok = (b == NULL) == (x->v.var == NULL) && (!b || (g_variant_equal (b, x->v.var) && g_variant_is_of_type (b, g_variant_get_type (x->v.var)))); } break;
    case T_ENUM: ok = g_value_get_enum (v) == x->v.i; break; case T_FLAGS: ok = g_value_get_flags (v) == x->v.u; break;
    case T_LONG: ok = g_value_get_long (v) == x->v.l; break; case T_ULONG: ok = g_value_get_ulong (v) == x->v.ul; break;
    case T_FD: { int *p = g_value_get_boxed (v); ok = p && v_is_fd (*p, x); } break;
    default: break;
    }
  if (!ok) { char *s = g_strdup_value_contents (v); bad (x, how, s); g_free (s); }
}
static void
same_error (Val *x, GError *e, const char *how)
{
  v_eval (1);
  if (e == NULL) { v_fail ("error-lost", "rejected future read by %s gives no error", how); return; }
  if (e->domain != x->dom || e->code != x->code || g_strcmp0 (e->message, x->msg))
    v_fail ("value-changed", "error %s %d '%s' read by %s as %s %d '%s'", g_quark_to_string (x->dom), x->code, x->msg, how, g_quark_to_string (e->domain), e->code, e->message);
}

/* --------------------------------------------------------------- ways in */
typedef struct { Val *x; } FiberArg;
static DexFuture *val_future (Val *x, VRng *r);
static DexFuture *
val_static (Val *x, VRng *r)
{
  gboolean special = v_chance (r, 70);
  GValue v = G_VALUE_INIT;
  DexFuture *f;
  if (x->t == T_ERROR)
    {
      x->in = 1;
      if (v_chance (r, 30)) { x->in = 2; return dex_future_new_reject (x->dom, x->code, "%s", x->msg); }
      return dex_future_new_for_error (g_error_new_literal (x->dom, x->code, x->msg));
    }
  if (special)
    {
      x->in = 3;
      switch (x->t)
        {
        case T_INT: return dex_future_new_for_int (x->v.i);
        case T_UINT: return dex_future_new_for_uint (x->v.u);
        case T_INT64: return dex_future_new_for_int64 (x->v.i64);
        case T_UINT64: return dex_future_new_for_uint64 (x->v.u64);
        case T_FLOAT: return dex_future_new_for_float (x->v.f);
        case T_DOUBLE: return dex_future_new_for_double (x->v.d);
        case T_BOOLEAN: return x->v.b ? (v_chance (r, 50) ? dex_future_new_true () : dex_future_new_for_boolean (TRUE)) : (v_chance (r, 50) ? dex_future_new_false () : dex_future_new_for_boolean (FALSE));
        case T_STRING: if (v_chance (r, 50)) return dex_future_new_for_string (x->v.s); x->in = 4; return dex_future_new_take_string (g_strdup (x->v.s));
        case T_POINTER: return dex_future_new_for_pointer (x->v.p);
        case T_BOXED: if (x->v.box) return dex_future_new_take_boxed (V_TYPE_BOX, v_box_new (x->v.box->id)); break;
        case T_OBJECT: if (x->v.obj) { if (v_chance (r, 50)) return dex_future_new_for_object (x->v.obj); x->in = 4; return dex_future_new_take_object (g_object_ref (x->v.obj)); } break;
        case T_VARIANT: if (x->v.var) return dex_future_new_take_variant (v_chance (r, 50) ? g_variant_ref (x->v.var) : copy_variant (x->v.var)); break;
        default: break;
        }
    }
  x->in = 5;
  val_to_gvalue (x, &v);
  f = dex_future_new_for_value (&v);
  g_value_unset (&v);
  return f;
}
static void
val_complete (Val *x, DexPromise *p, gboolean special)
{
  GValue v = G_VALUE_INIT;
  x->in = 10;
  if (x->t == T_ERROR) { dex_promise_reject (p, g_error_new_literal (x->dom, x->code, x->msg)); return; }
  if (special)
    {
      x->in = 11;
      switch (x->t)
        {
        case T_INT: dex_promise_resolve_int (p, x->v.i); return;
        case T_UINT: dex_promise_resolve_uint (p, x->v.u); return;
        case T_INT64: dex_promise_resolve_int64 (p, x->v.i64); return;
        case T_UINT64: dex_promise_resolve_uint64 (p, x->v.u64); return;
        case T_LONG: dex_promise_resolve_long (p, x->v.l); return;
        case T_ULONG: dex_promise_resolve_ulong (p, x->v.ul); return;
        case T_FLOAT: dex_promise_resolve_float (p, x->v.f); return;
        case T_DOUBLE: dex_promise_resolve_double (p, x->v.d); return;
        case T_BOOLEAN: dex_promise_resolve_boolean (p, x->v.b); return;
        case T_STRING: dex_promise_resolve_string (p, g_strdup (x->v.s)); return;
        case T_OBJECT: dex_promise_resolve_object (p, x->v.obj ? g_object_ref (x->v.obj) : NULL); return;
        case T_VARIANT: dex_promise_resolve_variant (p, x->v.var ? g_variant_ref (x->v.var) : NULL); return;
        case T_FD: dex_promise_resolve_fd (p, x->v.fd); return;
        default: break;
        }
    }
  x->in = 12;
  val_to_gvalue (x, &v);
  dex_promise_resolve (p, &v);
  g_value_unset (&v);
}
static DexFuture *ret_cb (DexFuture *f, gpointer d) { return dex_ref (DEX_FUTURE (d)); }
static DexFuture *null_cb (DexFuture *f, gpointer d) { return NULL; }
static DexFuture *ret_fiber (gpointer d) { return dex_ref (DEX_FUTURE (d)); }
static gboolean complete_idle (gpointer d) { gpointer *a = d; val_complete (a[0], a[1], GPOINTER_TO_INT (a[2])); dex_unref (a[1]); g_free (a); return FALSE; }

/* a future that has, or will have, the value; wrapped a few times */
static DexFuture *
val_future (Val *x, VRng *r)
{
  DexFuture *f;
  if (v_chance (r, 40)) f = val_static (x, r);
  else
    {
      DexPromise *p = dex_promise_new ();
      f = DEX_FUTURE (p);
      if (v_chance (r, 50)) val_complete (x, p, v_chance (r, 70));
      else { gpointer *a = g_new (gpointer, 3); a[0] = x; a[1] = dex_ref (p); a[2] = GINT_TO_POINTER (v_chance (r, 70)); g_idle_add (complete_idle, a); x->in = 13; }
    }
  for (guint n = v_below (r, 4); n > 0; n--)
    switch (v_below (r, 5))
      {
      case 0: f = dex_future_finally (f, null_cb, NULL, NULL); break;
      case 1: { DexFuture *in[1] = { f }, *s = dex_future_firstv (in, 1); dex_unref (f); f = s; } break;
      case 2: f = dex_future_then (dex_future_new_true (), ret_cb, f, dex_unref); break;
      case 3: f = dex_scheduler_spawn (NULL, 0, ret_fiber, f, dex_unref); break;
      default: { DexFuture *d = dex_delayed_new (f); dex_delayed_release (DEX_DELAYED (d)); dex_unref (f); f = d; } break;
      }
  return f;
}

/* --------------------------------------------------------------- ways out */
/* awaits as type t; consumes f */
static void
read_as (Val *x, DexFuture *f, int t, gboolean pending)
{
  GError *e = NULL;
  Val y = { .t = t };
  char how[48];
  gboolean match = x->t == t, zero = TRUE;
  g_snprintf (how, sizeof how, "dex_await_%s", tname[t]);
  switch (t)
    {
    case T_INT: y.v.i = dex_await_int (f, &e); zero = !y.v.i; break;
    case T_UINT: y.v.u = dex_await_uint (f, &e); zero = !y.v.u; break;
    case T_INT64: y.v.i64 = dex_await_int64 (f, &e); zero = !y.v.i64; break;
    case T_UINT64: y.v.u64 = dex_await_uint64 (f, &e); zero = !y.v.u64; break;
    case T_FLOAT: y.v.f = dex_await_float (f, &e); zero = y.v.f == 0; break;
    case T_DOUBLE: y.v.d = dex_await_double (f, &e); zero = y.v.d == 0; break;
    case T_BOOLEAN: y.v.b = dex_await_boolean (f, &e); zero = !y.v.b; break;
    case T_STRING: y.v.s = dex_await_string (f, &e); zero = !y.v.s; break;
    case T_POINTER: y.v.p = dex_await_pointer (f, &e); zero = !y.v.p; break;
    case T_BOXED: if (x->t == T_FD) { dex_unref (f); return; } y.v.box = dex_await_boxed (f, &e); zero = !y.v.box; break;
    case T_OBJECT: y.v.obj = dex_await_object (f, &e); zero = !y.v.obj; break;
    case T_VARIANT: y.v.var = dex_await_variant (f, &e); zero = !y.v.var; break;
    case T_ENUM: y.v.i = dex_await_enum (f, &e); zero = !y.v.i; break;
    case T_FLAGS: y.v.u = dex_await_flags (f, &e); zero = !y.v.u; break;
    case T_FD: y.v.fd = dex_await_fd (f, &e); zero = y.v.fd == -1; break;
    default: dex_unref (f); return;
    }
  v_event (1);
  if (pending)
    {
      v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_NO_FIBER) && zero, "await-pending", "%s on a pending future outside a fiber: error %s, value %s", how, e ? e->message : "none", zero ? "none" : "garbage");
      g_clear_error (&e);
      return;
    }
  if (x->t == T_ERROR) { if (!zero) v_fail ("value-invented", "%s on a rejected future returns a value", how); same_error (x, e, how); g_clear_error (&e); return; }
  if (!match)
    {
      v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_TYPE_MISMATCH) && zero, "wrong-type", "%s on a future of %s: error %s, value %s", how, tname[x->t], e ? e->message : "none", zero ? "none" : "garbage");
      g_clear_error (&e);
      v_eval (1);
      return;
    }
  if (e) { v_fail ("value-lost", "%s on a future of %s: %s", how, tname[x->t], e->message); return; }
  /* what came back is ours and outlives the future */
  if (t == T_FD) { if (!v_is_fd (y.v.fd, x)) bad (x, how, "not the file given"); else { v_eval (1); close (y.v.fd); } return; }
  if (t == T_BOXED && x->v.box && y.v.box == x->v.box) bad (x, how, "the very same boxed value");
  {
    GValue v = G_VALUE_INIT;
    y.dyn = x->dyn;
    val_to_gvalue (&y, &v);
    same_gvalue (x, &v, how);
    g_value_unset (&v);
  }
  val_clear (&y);
}

static void
check_one (Val *x, VRng *r, gboolean in_fiber)
{
  DexFuture *f = val_future (x, r);
  DexFuture *keep = dex_ref (f);
  GError *e = NULL;
  gboolean pending = dex_future_is_pending (f);
  int t = v_chance (r, 65) ? x->t : (int)v_below (r, N_T);
  if (!in_fiber && pending)
    {
      const GValue *v = dex_future_get_value (f, &e);
      v_check (v == NULL && g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING), "await-pending", "get_value on a pending future: value %p error %s", v, e ? e->message : "none");
      g_clear_error (&e);
      read_as (x, dex_ref (f), t == T_ERROR || t == T_LONG || t == T_ULONG ? T_INT : t, TRUE);
      v_run_until_settled (f, "value");
      pending = FALSE;
    }
  switch (v_below (r, 4))
    {
    case 0:
      v_check (dex_await (dex_ref (f), &e) == (x->t != T_ERROR), "wrong-outcome", "dex_await on %s", tname[x->t]);
      if (x->t == T_ERROR) same_error (x, e, "dex_await"); else v_check (e == NULL, "wrong-outcome", "dex_await sets %s", e->message);
      g_clear_error (&e);
      break;
    case 1:
      if (in_fiber) { dex_await (dex_ref (f), NULL); }
      break;
    default: break;
    }
  if (in_fiber || !pending) read_as (x, dex_ref (f), t, FALSE);
  dex_unref (f);
  if (!dex_future_is_pending (keep) && t != T_FD)
    {
      const GValue *v = dex_future_get_value (keep, &e);
      if (x->t == T_ERROR) { same_error (x, e, "dex_future_get_value"); v_check (v == NULL, "wrong-outcome", "rejected future has a value"); }
      else { same_gvalue (x, v, "dex_future_get_value"); v_check (e == NULL, "wrong-outcome", "resolved future has an error"); }
      g_clear_error (&e);
    }
  if (!in_fiber && dex_future_is_pending (keep)) v_run_until_settled (keep, "value");
  if (in_fiber && dex_future_is_pending (keep)) dex_await (dex_ref (keep), NULL);
  dex_unref (keep);
  v_sigf ("%d %d %d %d", x->t, x->in, t, in_fiber);
  v_count (tname[x->t], 1);
}

typedef struct { guint64 seed; int n; } Job;
static DexFuture *
job_fiber (gpointer data)
{
  Job *j = data;
  VRng r = { j->seed };
  for (int i = 0; i < j->n; i++)
    {
      Val x;
      val_rnd (&x, &r, v_below (&r, N_T));
      check_one (&x, &r, TRUE);
      val_clear (&x);
    }
  return dex_future_new_for_int (j->n);
}
static int n_fds (void) { int n = 0; for (int i = 0; i < 256; i++) { struct stat st; n += fstat (i, &st) == 0; } return n; }
static void
s_values (void)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live (), fds = n_fds ();
  Job j = { v_rand (&v_rng), 12 };
  DexFuture *f = dex_scheduler_spawn (NULL, 64 * 1024, job_fiber, &j, NULL);
  for (int i = 0; i < 12; i++)
    {
      Val x;
      val_rnd (&x, &v_rng, v_below (&v_rng, N_T));
      check_one (&x, &v_rng, FALSE);
      val_clear (&x);
    }
  v_run_until_settled (f, "fiber");
  dex_unref (f);
  v_drain ();
  v_expect_live (l0, "values");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left: %d boxed, %d objects", v_box_live () - box0, v_obj_live () - obj0);
  v_check (n_fds () == fds, "fd-leak", "%d descriptors, %d before", n_fds (), fds);
  v_sample ("24 values of random types in by promise, ready-made future or fiber, out by get_value and dex_await_*");
}

/* ownership: what was given is not needed afterwards, what comes back is not the library's */
static void
s_owner (void)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  char buf[64];
  DexFuture *f;
  int n = v_below (&v_rng, 1000000);
  GObject *o;
  switch (v_below (&v_rng, 8))
    {
    case 0:
      g_snprintf (buf, sizeof buf, "owner-%d", n);
      f = dex_future_new_for_string (buf);
      memset (buf, 'x', 20);
      { char *a = dex_await_string (dex_ref (f), NULL), *b = dex_await_string (dex_ref (f), NULL), w[64];
        g_snprintf (w, 64, "owner-%d", n);
        v_check (a && b && a != b && !strcmp (a, w) && !strcmp (b, w), "ownership", "string is '%s' '%s'", a, b);
        a[0] = 'Z'; v_check (!strcmp (g_value_get_string (dex_future_get_value (f, NULL)), w), "ownership", "awaited string is not a copy"); g_free (a); g_free (b); }
      break;
    case 1:
      o = v_obj_new (n);
      f = dex_future_new_take_object (o);
      v_check (o->ref_count == 1, "ownership", "take_object leaves %u references", o->ref_count);
      { GObject *a = dex_await_object (dex_ref (f), NULL); v_check (a == o && o->ref_count == 2, "ownership", "await_object: %u references", o->ref_count); dex_clear (&f); v_check (a->ref_count == 1, "ownership", "object has %u references", a->ref_count); g_object_unref (a); }
      f = dex_future_new_true ();
      break;
    case 2:
      o = v_obj_new (n);
      f = dex_future_new_for_object (o);
      v_check (o->ref_count == 2, "ownership", "new_for_object leaves %u references", o->ref_count);
      dex_clear (&f);
      v_check (o->ref_count == 1, "ownership", "object has %u references after its future", o->ref_count);
      g_object_unref (o);
      f = dex_future_new_true ();
      break;
    case 3:
      { DexPromise *p = dex_promise_new ();
        o = v_obj_new (n);
        dex_promise_resolve_object (p, g_object_ref (o));
        v_check (o->ref_count == 2, "ownership", "resolve_object leaves %u references", o->ref_count);
        /* too late: still consumed */
        dex_promise_resolve_object (p, g_object_ref (o));
        v_check (o->ref_count == 2, "ownership", "second resolve_object leaves %u references", o->ref_count);
        dex_promise_resolve_string (p, g_strdup ("late")); dex_promise_reject (p, v_out_error (5)); dex_promise_resolve_variant (p, g_variant_new_int32 (4));
        f = DEX_FUTURE (p);
        v_check (g_value_get_object (dex_future_get_value (f, NULL)) == o, "wrong-outcome", "value replaced");
        g_object_unref (o); }
      break;
    case 4:
      { VBox *b = v_box_new (n), *a;
        f = dex_future_new_take_boxed (V_TYPE_BOX, b);
        a = dex_await_boxed (dex_ref (f), NULL);
        v_check (a && a != g_value_get_boxed (dex_future_get_value (f, NULL)) && a->id == n, "ownership", "boxed");
        dex_clear (&f); v_check (a->id == n, "ownership", "boxed copy dies with its future"); v_box_free (a);
        v_check (v_box_live () == box0, "payload-leak", "%d boxed values left", v_box_live () - box0);
        f = dex_future_new_true (); }
      break;
    case 5:
      { GVariant *v = g_variant_new_int32 (n), *a;
        f = dex_future_new_take_variant (v);
        v_check (!g_variant_is_floating (v), "ownership", "variant left floating");
        a = dex_await_variant (dex_ref (f), NULL);
        dex_clear (&f);
        v_check (g_variant_get_int32 (a) == n, "ownership", "variant"); g_variant_unref (a);
        f = dex_future_new_true (); }
      break;
    case 6:
      { /* errno */
        static const int en[] = { ENOENT, EACCES, EEXIST, EINVAL, ENOTDIR, EISDIR, EBADF, EPIPE, ENOSPC, ETIMEDOUT, ECONNREFUSED, EBUSY, EAGAIN, 12345 };
        int err = en[v_below (&v_rng, G_N_ELEMENTS (en))];
        GError *e = NULL;
        f = dex_future_new_for_errno (err);
        dex_future_get_value (f, &e);
        v_check (g_error_matches (e, G_IO_ERROR, g_io_error_from_errno (err)) && !g_strcmp0 (e->message, g_strerror (err)), "value-changed", "errno %d becomes %s", err, e ? e->message : "nothing");
        g_clear_error (&e); }
      break;
    default:
      { /* infinite never settles, whoever waits */
        DexFuture *i = dex_future_new_infinite (), *in[2], *s;
        DexPromise *p = dex_promise_new ();
        in[0] = i; in[1] = DEX_FUTURE (p);
        s = dex_future_firstv (in, 2);
        v_check (dex_future_is_pending (i) && dex_future_is_pending (s), "value-invented", "infinite future settled");
        dex_promise_resolve_int (p, 0);
        v_check (v_out_read (s, "first") == 0 && dex_future_is_pending (i), "wrong-outcome", "first with an infinite future");
        dex_unref (s); dex_unref (i); f = DEX_FUTURE (p); }
    }
  dex_unref (f);
  v_drain ();
  v_expect_live (l0, "ownership");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left");
  v_eval (3); v_event (1); v_sigf ("own %d", n % 50);
}

/* one settled value awaited from many threads at once, its owner dropping it meanwhile */
#define SHN 20
typedef struct { DexFuture *f[4][SHN]; Val x[SHN]; } Share;
static void
share_thread (guint idx, VRng *rng, gpointer data)
{
  Share *s = data;
  for (int k = 0; k < SHN; k++)
    {
      v_noise_point ();
      if (v_chance (rng, 50)) read_as (&s->x[k], dex_ref (s->f[idx][k]), (int)v_below (rng, N_T), FALSE);
      read_as (&s->x[k], g_steal_pointer (&s->f[idx][k]), s->x[k].t, FALSE);
    }
}
static void
s_shared (void)
{
  Share *s = g_new0 (Share, 1);
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  guint n = 2 + v_below (&v_rng, 3);
  uint64_t sig = n;
  for (int k = 0; k < SHN; k++)
    {
      int t;
      do t = v_below (&v_rng, N_T); while (t == T_FD);
      val_rnd (&s->x[k], &v_rng, t); sig = v_hash_add (sig, t);
      s->f[0][k] = val_static (&s->x[k], &v_rng);
      for (guint i = 1; i < n; i++) s->f[i][k] = dex_ref (s->f[0][k]);
    }
  v_par (n, share_thread, s);
  for (int k = 0; k < SHN; k++) { for (guint i = 0; i < n; i++) dex_clear (&s->f[i][k]); val_clear (&s->x[k]); }
  v_sig (sig);
  v_sample ("%d settled futures awaited and released by %u threads", SHN, n);
  v_expect_live (l0, "shared values");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left");
  g_free (s);
}

static const VScenario scenarios[] = {
  { "values", s_values, 100 },
  { "owner", s_owner, 100 },
  { "shared", s_shared, 100 },
  { 0 }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
