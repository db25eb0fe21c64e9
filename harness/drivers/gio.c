/* C27: the wrapped GIO operations against the synchronous ones on twin files, streams, sockets and connections */
// WRAP: g_input_stream_read_bytes_async g_output_stream_write_bytes_async g_file_read_async g_file_replace_async g_input_stream_read_async
// WRAP: g_input_stream_skip_async g_output_stream_write_async g_output_stream_close_async g_input_stream_close_async g_output_stream_splice_async
// WRAP: g_file_query_info_async g_file_make_directory_async g_file_enumerate_children_async g_file_enumerator_next_files_async g_file_copy_async
// WRAP: g_socket_listener_accept_async g_socket_client_connect_async g_io_stream_close_async g_resolver_lookup_by_name_async g_file_load_contents_async
// WRAP: g_dbus_connection_send_message_with_reply g_dbus_connection_call g_dbus_connection_call_with_unix_fd_list g_bus_get g_subprocess_wait_check_async
#include "vout.h"
#include <gio/gunixinputstream.h>
#include <gio/gunixoutputstream.h>
#include <gio/gunixfdlist.h>
#include <glib/gstdio.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include "dex-gio.h"

/* ---------------------------------------------------------------- what the library asks GIO for
 * Only looked at when the library used that function at all: how it gets its
 * result is its business, with which priority and cancellable is not. */
typedef struct { int calls, prio; GCancellable *c; gint64 a, b; } Seen;
static __thread Seen seen;
static __thread gboolean armed;
static void saw (int prio, GCancellable *c) { if (armed) { seen.calls++; seen.prio = prio; g_set_object (&seen.c, c); } }
#define W(name, params, args, prio) void __real_##name params; void __wrap_##name params; void __wrap_##name params { saw (prio, c); __real_##name args; }
W (g_input_stream_read_bytes_async, (GInputStream *s, gsize n, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, n, p, c, cb, d), p)
W (g_output_stream_write_bytes_async, (GOutputStream *s, GBytes *b, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, b, p, c, cb, d), p)
W (g_file_read_async, (GFile *f, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, p, c, cb, d), p)
W (g_file_replace_async, (GFile *f, const char *e, gboolean m, GFileCreateFlags fl, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, e, m, fl, p, c, cb, d), p)
W (g_input_stream_read_async, (GInputStream *s, void *b, gsize n, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, b, n, p, c, cb, d), p)
W (g_input_stream_skip_async, (GInputStream *s, gsize n, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, n, p, c, cb, d), p)
W (g_output_stream_write_async, (GOutputStream *s, const void *b, gsize n, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, b, n, p, c, cb, d), p)
W (g_output_stream_close_async, (GOutputStream *s, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, p, c, cb, d), p)
W (g_input_stream_close_async, (GInputStream *s, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, p, c, cb, d), p)
W (g_output_stream_splice_async, (GOutputStream *s, GInputStream *i, GOutputStreamSpliceFlags fl, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, i, fl, p, c, cb, d), p)
W (g_file_query_info_async, (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, a, fl, p, c, cb, d), p)
W (g_file_make_directory_async, (GFile *f, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, p, c, cb, d), p)
W (g_file_enumerate_children_async, (GFile *f, const char *a, GFileQueryInfoFlags fl, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, a, fl, p, c, cb, d), p)
W (g_file_enumerator_next_files_async, (GFileEnumerator *f, int n, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, n, p, c, cb, d), p)
W (g_file_copy_async, (GFile *f, GFile *t, GFileCopyFlags fl, int p, GCancellable *c, GFileProgressCallback pc, gpointer pd, GAsyncReadyCallback cb, gpointer d), (f, t, fl, p, c, pc, pd, cb, d), p)
W (g_socket_listener_accept_async, (GSocketListener *l, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (l, c, cb, d), 12345)
W (g_socket_client_connect_async, (GSocketClient *l, GSocketConnectable *a, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (l, a, c, cb, d), 12345)
W (g_io_stream_close_async, (GIOStream *s, int p, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, p, c, cb, d), p)
W (g_resolver_lookup_by_name_async, (GResolver *r, const char *n, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (r, n, c, cb, d), 12345)
W (g_file_load_contents_async, (GFile *f, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (f, c, cb, d), 12345)
W (g_dbus_connection_send_message_with_reply, (GDBusConnection *k, GDBusMessage *m, GDBusSendMessageFlags fl, int t, volatile guint32 *s, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (k, m, fl, t, s, c, cb, d), 12345)
W (g_dbus_connection_call, (GDBusConnection *k, const char *b, const char *o, const char *i, const char *m, GVariant *v, const GVariantType *rt, GDBusCallFlags fl, int t, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (k, b, o, i, m, v, rt, fl, t, c, cb, d), 12345)
W (g_dbus_connection_call_with_unix_fd_list, (GDBusConnection *k, const char *b, const char *o, const char *i, const char *m, GVariant *v, const GVariantType *rt, GDBusCallFlags fl, int t, GUnixFDList *l, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (k, b, o, i, m, v, rt, fl, t, l, c, cb, d), 12345)
W (g_bus_get, (GBusType t, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (t, c, cb, d), 12345)
W (g_subprocess_wait_check_async, (GSubprocess *s, GCancellable *c, GAsyncReadyCallback cb, gpointer d), (s, c, cb, d), 12345)

/* ---------------------------------------------------------------- twins */
enum { IN_MAIN, IN_FIBER, IN_POOL };
typedef struct Twin { gboolean dex; guint where; const char *dir; GString *log; VRng rng; int prio; int ops; void (*func) (struct Twin *); const char *what; } Twin;

static void
log_error (Twin *t, GError *e)
{
  char *m = g_strdup (e->message), *p;
  /* the twin's own directory, also where it is quoted */
  while ((p = strstr (m, t->dir))) { memmove (p + 1, p + strlen (t->dir), strlen (p + strlen (t->dir)) + 1); *p = '@'; }
  /* these GLib's two functions word differently */
  if (g_error_matches (e, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT) || g_error_matches (e, G_IO_ERROR, G_IO_ERROR_CLOSED)) m[0] = 0;
  g_string_append_printf (t->log, " error %s %d %s\n", g_quark_to_string (e->domain), e->code, m);
  g_free (m);
}
static const GValue *
finish (Twin *t, DexFuture *f, GError **e)
{
  const GValue *v;
  armed = FALSE;
  v_check (f != NULL && DEX_IS_FUTURE (f), "gio-null", "%s gave no future", t->what);
  if (seen.calls && seen.prio != 12345) v_check (seen.prio == t->prio, "gio-priority", "%s was given priority %d, GIO %d", t->what, t->prio, seen.prio);
  if (seen.calls) v_check (seen.c != NULL, "gio-cancellable", "%s cannot be cancelled", t->what);
  g_clear_object (&seen.c); seen.calls = 0;
  if (t->where == IN_MAIN) v_run_until_settled (f, t->what);
  else
    {
      GError *x = NULL;
      dex_await (dex_ref (f), &x);
      g_clear_error (&x);
    }
  v = dex_future_get_value (f, e);
  v_check ((v != NULL) != (*e != NULL), "gio-outcome", "%s gave value %p and error %p", t->what, v, *e);
  t->ops++;
  v_event (1);
  return v;
}
/* every step is one of these: the wrapper or the synchronous call, whatever twin it is */
#define STEP(name) (t->what = name, g_string_append (t->log, name), t->prio = prios[v_below (&t->rng, 5)], armed = t->dex, seen.calls = 0)
static const int prios[] = { 0, G_PRIORITY_HIGH, G_PRIORITY_DEFAULT_IDLE, G_PRIORITY_LOW, 7 };
#define WANT(v, type) do { if (v) v_check (G_VALUE_HOLDS (v, type), "gio-type", "%s gave a %s", t->what, G_VALUE_TYPE_NAME (v)); } while (0)
#define DO_INT(dexc, syncc) ({ GError *e = NULL; gint64 _r = -1; if (t->dex) { DexFuture *_f = dexc; const GValue *_v = finish (t, _f, &e); WANT (_v, G_TYPE_INT64); if (_v) _r = g_value_get_int64 (_v); dex_unref (_f); } else { _r = syncc; } if (e) log_error (t, e); else g_string_append_printf (t->log, " %" G_GINT64_FORMAT "\n", _r); if (e) _r = -1; g_clear_error (&e); _r; })
#define DO_BOOL(dexc, syncc) ({ GError *e = NULL; gboolean _r = FALSE; if (t->dex) { DexFuture *_f = dexc; const GValue *_v = finish (t, _f, &e); WANT (_v, G_TYPE_BOOLEAN); if (_v) _r = g_value_get_boolean (_v); dex_unref (_f); } else { _r = syncc; } if (e) log_error (t, e); else g_string_append_printf (t->log, " %d\n", _r); g_clear_error (&e); _r; })
#define DO_OBJ(type, dexc, syncc) ({ GError *e = NULL; gpointer _r = NULL; if (t->dex) { DexFuture *_f = dexc; const GValue *_v = finish (t, _f, &e); WANT (_v, type); if (_v) _r = g_value_dup_object (_v); dex_unref (_f); } else { _r = syncc; } if (e) log_error (t, e); else g_string_append_printf (t->log, " %s\n", _r ? G_OBJECT_TYPE_NAME (_r) : "none"); g_clear_error (&e); _r; })
#define DO_BOXED(type, dexc, syncc) ({ GError *e = NULL; gpointer _r = NULL; if (t->dex) { DexFuture *_f = dexc; const GValue *_v = finish (t, _f, &e); WANT (_v, type); if (_v) _r = g_value_dup_boxed (_v); dex_unref (_f); } else { _r = syncc; } if (e) log_error (t, e); else g_string_append (t->log, " ok\n"); g_clear_error (&e); _r; })

static char *scratch;
static void
rm_rf (const char *path)
{
  struct stat st;
  if (lstat (path, &st)) return;
  if (S_ISDIR (st.st_mode))
    {
      GDir *d = g_dir_open (path, 0, NULL);
      const char *n;
      while (d && (n = g_dir_read_name (d))) { char *p = g_build_filename (path, n, NULL); rm_rf (p); g_free (p); }
      if (d) g_dir_close (d);
      rmdir (path);
    }
  else unlink (path);
}
static int by_name (gconstpointer a, gconstpointer b) { return strcmp (*(char **) a, *(char **) b); }
static void
dump_tree (GString *s, const char *path, const char *name)
{
  struct stat st;
  char *p = g_build_filename (path, name, NULL);
  if (lstat (p, &st)) { g_string_append_printf (s, "%s missing\n", name); g_free (p); return; }
  g_string_append_printf (s, "%s mode %o", name, st.st_mode);
  if (S_ISREG (st.st_mode)) { char *b = NULL; gsize n = 0; guint h = 5381; g_file_get_contents (p, &b, &n, NULL); for (gsize i = 0; i < n; i++) h = h * 33 + (guchar) b[i]; g_string_append_printf (s, " %zu bytes %08x\n", n, h); g_free (b); }
  else if (S_ISDIR (st.st_mode))
    {
      GDir *d = g_dir_open (p, 0, NULL);
      GPtrArray *names = g_ptr_array_new_with_free_func (g_free);
      const char *n;
      while (d && (n = g_dir_read_name (d))) g_ptr_array_add (names, g_strdup (n));
      if (d) g_dir_close (d);
      g_ptr_array_sort (names, by_name);
      g_string_append_printf (s, " %u entries\n", names->len);
      for (guint i = 0; i < names->len; i++) dump_tree (s, p, names->pdata[i]);
      g_ptr_array_unref (names);
    }
  else g_string_append (s, "\n");
  g_free (p);
}
static void
make_tree (const char *dir, VRng rng)
{
  char *p, *b; gsize n;
  g_mkdir (dir, 0755);
  n = v_chance (&rng, 20) ? 70000 : v_below (&rng, 5000);
  b = g_malloc (n + 1); for (gsize i = 0; i < n; i++) b[i] = (char) v_rand (&rng);
  p = g_build_filename (dir, "f0", NULL); g_file_set_contents (p, b, n, NULL); g_free (p);
  p = g_build_filename (dir, "f1", NULL); g_file_set_contents (p, b, n / 2, NULL); g_chmod (p, 0640); g_free (p);
  g_free (b);
  p = g_build_filename (dir, "empty", NULL); g_file_set_contents (p, "", 0, NULL); g_free (p);
  p = g_build_filename (dir, "ln", NULL); G_GNUC_UNUSED int x = symlink ("f0", p); g_free (p);
  p = g_build_filename (dir, "dang", NULL); x = symlink ("nothing", p); g_free (p);
  p = g_build_filename (dir, "loop", NULL); x = symlink ("loop", p); g_free (p);
  p = g_build_filename (dir, "d0", NULL); g_mkdir (p, 0755); g_free (p);
  n = v_below (&rng, 7);
  for (gsize i = 0; i < n; i++) { char nm[16]; g_snprintf (nm, sizeof nm, "d0/e%zu", i); p = g_build_filename (dir, nm, NULL); g_file_set_contents (p, nm, i, NULL); g_free (p); }
}
static GFile *
pick (Twin *t)
{
  static const char *names[] = { "f0", "f0", "f1", "f1", "empty", "ln", "dang", "loop", "d0", "nothing", "nothing/x", "d0/e0", "d0/new", "new" };
  const char *n = names[v_below (&t->rng, G_N_ELEMENTS (names))];
  char *p = g_build_filename (t->dir, n, NULL);
  GFile *f = g_file_new_for_path (p);
  g_string_append_printf (t->log, "%s: ", n);
  g_free (p);
  return f;
}
static void
log_bytes (Twin *t, const void *d, gsize n)
{
  guint h = 5381;
  for (gsize i = 0; i < n; i++) h = h * 33 + ((const guchar *) d)[i];
  g_string_append_printf (t->log, "  %zu bytes %08x\n", n, h);
}
static void
log_info (Twin *t, GFileInfo *info)
{
  char **a;
  if (!info) { g_string_append (t->log, "  no info\n"); return; }
  a = g_file_info_list_attributes (info, NULL);
  for (guint i = 0; a[i]; i++)
    if (g_file_info_get_attribute_type (info, a[i]) == G_FILE_ATTRIBUTE_TYPE_OBJECT) g_string_append_printf (t->log, "  %s object\n", a[i]);
    else if (!strncmp (a[i], "standard::", 10) || !strcmp (a[i], "unix::mode") || !strcmp (a[i], "unix::nlink"))
      { char *v = g_file_info_get_attribute_as_string (info, a[i]); g_string_append_printf (t->log, "  %s=%s\n", a[i], v); g_free (v); }
    else g_string_append_printf (t->log, "  %s\n", a[i]);
  g_strfreev (a);
}
static const char *attrs[] = { "standard::name,standard::size,standard::type", "standard::*", "standard::type,unix::mode", "unix::nlink", "" };

/* streams left open by earlier steps */
static void
use_input (Twin *t, GInputStream *in, guint steps)
{
  while (steps--)
    {
      gsize n = v_chance (&t->rng, 15) ? 0 : v_chance (&t->rng, 20) ? 100000 : v_below (&t->rng, 3000);
      switch (v_below (&t->rng, 7))
        {
        case 0: case 1:
          {
            guchar *b = g_malloc0 (n + 16); gint64 r;
            memset (b + n, 0x5a, 16);
            STEP ("read");
            r = DO_INT (dex_input_stream_read (in, b, n, t->prio), g_input_stream_read (in, b, n, NULL, &e));
            if (r > 0) log_bytes (t, b, r);
            for (int i = 0; i < 16; i++) v_check (b[n + i] == 0x5a, "gio-overrun", "dex_input_stream_read() wrote past the buffer");
            g_free (b);
            break;
          }
        case 2: case 3:
          {
            GBytes *b;
            if (!n) n = 1;   /* GLib's synchronous function complains about reading 0 bytes */
            STEP ("read_bytes");
            b = DO_BOXED (G_TYPE_BYTES, dex_input_stream_read_bytes (in, n, t->prio), g_input_stream_read_bytes (in, n, NULL, &e));
            if (b) { log_bytes (t, g_bytes_get_data (b, NULL), g_bytes_get_size (b)); g_bytes_unref (b); }
            break;
          }
        case 4: STEP ("skip"); DO_INT (dex_input_stream_skip (in, n, t->prio), g_input_stream_skip (in, n, NULL, &e)); break;
        case 5: if (v_chance (&t->rng, 40) && !g_input_stream_is_closed (in)) { STEP ("close_in"); DO_BOOL (dex_input_stream_close (in, t->prio), g_input_stream_close (in, NULL, &e)); } break;
        default:
          {
            /* into a file or memory */
            GOutputStream *out; GOutputStreamSpliceFlags fl = v_below (&t->rng, 4);
            out = g_memory_output_stream_new_resizable ();
            STEP ("splice");
            DO_INT (dex_output_stream_splice (out, in, fl, t->prio), g_output_stream_splice (out, in, fl, NULL, &e));
            g_string_append_printf (t->log, "  closed %d %d\n", g_input_stream_is_closed (in), g_output_stream_is_closed (out));
            log_bytes (t, g_memory_output_stream_get_data (G_MEMORY_OUTPUT_STREAM (out)), g_memory_output_stream_get_data_size (G_MEMORY_OUTPUT_STREAM (out)));
            g_object_unref (out);
            break;
          }
        }
      if (G_IS_SEEKABLE (in) && !g_input_stream_is_closed (in)) g_string_append_printf (t->log, "  at %" G_GINT64_FORMAT "\n", (gint64) g_seekable_tell (G_SEEKABLE (in)));
      g_string_append_printf (t->log, "  pending %d closed %d\n", g_input_stream_has_pending (in), g_input_stream_is_closed (in));
    }
}
static void
use_output (Twin *t, GOutputStream *out, guint steps)
{
  while (steps--)
    {
      gsize n = v_chance (&t->rng, 15) ? 0 : v_below (&t->rng, 3000);
      guchar *b = g_malloc (n + 1);
      for (gsize i = 0; i <= n; i++) b[i] = (guchar) v_rand (&t->rng);
      switch (v_below (&t->rng, 6))
        {
        case 0: case 1: STEP ("write"); DO_INT (dex_output_stream_write (out, b, n, t->prio), g_output_stream_write (out, b, n, NULL, &e)); break;
        case 2: case 3:
          {
            GBytes *y = g_bytes_new (b, MAX (n, 1));   /* GLib's synchronous function complains about writing 0 bytes */
            STEP ("write_bytes");
            DO_INT (dex_output_stream_write_bytes (out, y, t->prio), g_output_stream_write_bytes (out, y, NULL, &e));
            g_bytes_unref (y);
            break;
          }
        case 4: if (v_chance (&t->rng, 50) && !g_output_stream_is_closed (out) /* GLib: 1 or an error */) { STEP ("close_out"); DO_BOOL (dex_output_stream_close (out, t->prio), g_output_stream_close (out, NULL, &e)); } break;
        default:
          {
            GInputStream *in = g_memory_input_stream_new_from_data (g_memdup2 (b, n), n, g_free);
            GOutputStreamSpliceFlags fl = v_below (&t->rng, 4);
            STEP ("splice_to");
            DO_INT (dex_output_stream_splice (out, in, fl, t->prio), g_output_stream_splice (out, in, fl, NULL, &e));
            g_string_append_printf (t->log, "  closed %d %d\n", g_input_stream_is_closed (in), g_output_stream_is_closed (out));
            g_object_unref (in);
          }
        }
      g_string_append_printf (t->log, "  pending %d closed %d\n", g_output_stream_has_pending (out), g_output_stream_is_closed (out));
      g_free (b);
    }
}
static void
run_files (Twin *t)
{
  guint n = 2 + v_below (&t->rng, 10);
  while (n--)
    {
      GFile *f = pick (t);
      switch (v_below (&t->rng, 12))
        {
        case 0: case 1:
          {
            GInputStream *in;
            STEP ("file_read");
            in = DO_OBJ (G_TYPE_FILE_INPUT_STREAM, dex_file_read (f, t->prio), g_file_read (f, NULL, &e));
            if (in)
              {
                if (v_chance (&t->rng, 25)) { GInputStream *b = g_buffered_input_stream_new_sized (in, 64); g_object_unref (in); in = b; }
                use_input (t, in, 1 + v_below (&t->rng, 5)); g_object_unref (in);
              }
            break;
          }
        case 2: case 3:
          {
            GOutputStream *out; char *etag = NULL; gboolean backup = v_chance (&t->rng, 50); GFileCreateFlags fl = v_below (&t->rng, 4);
            switch (v_below (&t->rng, 4))
              {
              case 0: { GFileInfo *i = g_file_query_info (f, G_FILE_ATTRIBUTE_ETAG_VALUE, 0, NULL, NULL); char *q = g_file_get_path (f); if (i && !g_file_test (q, G_FILE_TEST_IS_SYMLINK) /* GIO compares with the link's own time, sometimes the same */) etag = g_strdup (g_file_info_get_etag (i)); g_clear_object (&i); g_free (q); } break;
              case 1: etag = g_strdup ("not-the-etag"); break;
              }
            STEP ("file_replace");
            out = DO_OBJ (G_TYPE_FILE_OUTPUT_STREAM, dex_file_replace (f, etag, backup, fl, t->prio), g_file_replace (f, etag, backup, fl, NULL, &e));
            g_free (etag);
            if (out) { use_output (t, out, 1 + v_below (&t->rng, 4)); g_output_stream_close (out, NULL, NULL); g_object_unref (out); }
            break;
          }
        case 4:
          {
            GFileInfo *i; const char *a = attrs[v_below (&t->rng, 5)]; GFileQueryInfoFlags fl = v_below (&t->rng, 2);
            STEP ("query_info");
            i = DO_OBJ (G_TYPE_FILE_INFO, dex_file_query_info (f, a, fl, t->prio), g_file_query_info (f, a, fl, NULL, &e));
            log_info (t, i); g_clear_object (&i);
            break;
          }
        case 5: STEP ("make_directory"); DO_BOOL (dex_file_make_directory (f, t->prio), g_file_make_directory (f, NULL, &e)); break;
        case 6: case 7:
          {
            GFileEnumerator *en; const char *a = attrs[v_below (&t->rng, 3)]; GFileQueryInfoFlags fl = v_below (&t->rng, 2);
            if (v_chance (&t->rng, 70)) { g_object_unref (f); f = g_file_new_for_path (t->dir); if (v_chance (&t->rng, 60)) { GFile *d = g_file_get_child (f, "d0"); g_object_unref (f); f = d; } }
            STEP ("enumerate");
            en = DO_OBJ (G_TYPE_FILE_ENUMERATOR, dex_file_enumerate_children (f, a, fl, t->prio), g_file_enumerate_children (f, a, fl, NULL, &e));
            if (en)
              {
                GPtrArray *all = g_ptr_array_new_with_free_func (g_free);
                guint k = 1 + v_below (&t->rng, 5);
                gboolean end = FALSE;
                for (guint r = 0; r < k; r++)
                  {
                    int want = 1 + v_below (&t->rng, 5);
                    GList *l;
                    if (v_chance (&t->rng, 10)) g_file_enumerator_close (en, NULL, NULL);
                    STEP ("next_files");
                    if (t->dex) l = DO_BOXED (DEX_TYPE_FILE_INFO_LIST, dex_file_enumerator_next_files (en, want, t->prio), NULL);
                    else
                      {
                        /* the synchronous way to the same */
                        GError *e = NULL; int got = 0;
                        l = NULL;
                        while (got < want) { GFileInfo *i = g_file_enumerator_next_file (en, NULL, &e); if (!i) break; l = g_list_append (l, i); got++; }
                        if (e) log_error (t, e); else g_string_append (t->log, " ok\n");
                        g_clear_error (&e);
                      }
                    g_string_append_printf (t->log, "  %u infos\n", g_list_length (l));
                    end = end || (!g_file_enumerator_is_closed (en) && g_list_length (l) < (guint) want);
                    for (GList *i = l; i; i = i->next) { g_ptr_array_add (all, g_strdup_printf ("%s %d", g_file_info_has_attribute (i->data, "standard::name") ? g_file_info_get_name (i->data) : "?", g_file_info_has_attribute (i->data, "standard::type") ? (int) g_file_info_get_file_type (i->data) : -1)); }
                    g_list_free_full (l, g_object_unref);
                  }
                g_ptr_array_sort (all, by_name);
                if (end) for (guint i = 0; i < all->len; i++) g_string_append_printf (t->log, "  %s\n", (char *) all->pdata[i]);
                g_ptr_array_unref (all);
                g_object_unref (en);
              }
            break;
          }
        case 8: case 9:
          {
            GFile *to = pick (t); GFileCopyFlags fl = v_below (&t->rng, 8);
            STEP ("copy");
            DO_BOOL (dex_file_copy (f, to, fl, t->prio), g_file_copy (f, to, fl, NULL, NULL, NULL, &e));
            g_object_unref (to);
            break;
          }
        case 10:
          {
            GBytes *b;
            STEP ("load_contents");
            b = DO_BOXED (G_TYPE_BYTES, dex_file_load_contents_bytes (f), ({ char *d = NULL; gsize len = 0; g_file_load_contents (f, NULL, &d, &len, NULL, &e) ? g_bytes_new_take (d, len) : NULL; }));
            if (b) { log_bytes (t, g_bytes_get_data (b, NULL), g_bytes_get_size (b)); g_bytes_unref (b); }
            break;
          }
        default:
          {
            GError *x = NULL; GFileInfo *i = NULL; int prio;
            STEP ("query_exists"); prio = t->prio; t->prio = 0;
            DO_BOOL (dex_file_query_exists (f), ((i = g_file_query_info (f, G_FILE_ATTRIBUTE_STANDARD_TYPE, 0, NULL, &e)) != NULL));
            t->prio = prio; g_clear_object (&i); g_clear_error (&x);
          }
        }
      g_object_unref (f);
    }
  dump_tree (t->log, t->dir, ".");
}
/* streams of other kinds */
static void
run_streams (Twin *t)
{
  guint n = 1 + v_below (&t->rng, 3);
  while (n--)
    switch (v_below (&t->rng, 6))
      {
      case 0: { gsize k = v_below (&t->rng, 6000); guchar *b = g_malloc0 (k + 1); GInputStream *in; for (gsize i = 0; i < k; i++) b[i] = (guchar) v_rand (&t->rng); in = g_memory_input_stream_new_from_data (b, k, g_free); use_input (t, in, 1 + v_below (&t->rng, 6)); g_object_unref (in); } break;
      case 1: { GOutputStream *out = g_memory_output_stream_new_resizable (); use_output (t, out, 1 + v_below (&t->rng, 6)); log_bytes (t, g_memory_output_stream_get_data (G_MEMORY_OUTPUT_STREAM (out)), g_memory_output_stream_get_data_size (G_MEMORY_OUTPUT_STREAM (out))); g_object_unref (out); } break;
      case 2: { char *m = g_malloc (1000); GOutputStream *out = g_memory_output_stream_new (m, 1000, NULL, NULL); use_output (t, out, 1 + v_below (&t->rng, 4)); g_object_unref (out); g_free (m); } break;
      case 3: { GOutputStream *out = g_unix_output_stream_new (open ("/dev/full", O_WRONLY), TRUE); if (v_chance (&t->rng, 60)) { GOutputStream *b = g_buffered_output_stream_new_sized (out, 512); g_object_unref (out); out = b; } use_output (t, out, 1 + v_below (&t->rng, 4)); g_object_unref (out); } break;
      case 4:
        {
          int p[2]; char c[400]; GInputStream *in;
          G_GNUC_UNUSED int x = pipe (p); memset (c, 'q', sizeof c); x = write (p[1], c, v_below (&t->rng, 400)); close (p[1]);
          in = g_unix_input_stream_new (p[0], TRUE); use_input (t, in, 1 + v_below (&t->rng, 5)); g_object_unref (in);
        }
        break;
      default:
        {
          GInputStream *in = g_memory_input_stream_new_from_data (g_strdup ("abcdef"), 6, g_free);
          GOutputStream *out = v_chance (&t->rng, 50) ? g_memory_output_stream_new_resizable () : g_buffered_output_stream_new (g_unix_output_stream_new (open ("/dev/full", O_WRONLY), TRUE));
          GIOStream *io = g_simple_io_stream_new (in, out);
          if (v_chance (&t->rng, 50)) g_output_stream_write (out, "x", 1, NULL, NULL);
          if (v_chance (&t->rng, 20)) g_io_stream_close (io, NULL, NULL);
          STEP ("io_close");
          DO_BOOL (dex_io_stream_close (io, t->prio), g_io_stream_close (io, NULL, &e));
          g_string_append_printf (t->log, "  closed %d %d %d\n", g_io_stream_is_closed (io), g_input_stream_is_closed (in), g_output_stream_is_closed (out));
          g_object_unref (io); g_object_unref (in);
          if (G_IS_BUFFERED_OUTPUT_STREAM (out)) g_object_unref (g_filter_output_stream_get_base_stream (G_FILTER_OUTPUT_STREAM (out)));
          g_object_unref (out);
        }
      }
}
/* sockets, processes, names */
typedef struct { GResolver parent; } VRv;
typedef struct { GResolverClass parent; } VRvClass;
G_DEFINE_TYPE (VRv, v_rv, G_TYPE_RESOLVER)
static GList *
rv_plan (const char *name, GError **e)
{
  GList *l = NULL; guint n = strlen (name);
  if (n % 5 == 0) { g_set_error (e, G_RESOLVER_ERROR, (int) (n % 3), "no %s", name); return NULL; }
  for (guint i = 0; i < n % 7 + 1; i++) { char a[32]; g_snprintf (a, sizeof a, "10.%u.%u.%u", n & 255, i, (guint) (guchar) name[0]); l = g_list_append (l, g_inet_address_new_from_string (a)); }
  return l;
}
static void free_list (gpointer d) { g_list_free_full (d, g_object_unref); }
static GList *rv_lookup (GResolver *r, const char *name, GResolverNameLookupFlags fl, GCancellable *c, GError **e) { return rv_plan (name, e); }
static void
rv_async (GResolver *r, const char *name, GResolverNameLookupFlags fl, GCancellable *c, GAsyncReadyCallback cb, gpointer d)
{
  GTask *k = g_task_new (r, c, cb, d);
  GError *e = NULL; GList *l = rv_plan (name, &e);
  if (e) g_task_return_error (k, e); else g_task_return_pointer (k, l, free_list);
  g_object_unref (k);
}
static GList *rv_finish (GResolver *r, GAsyncResult *res, GError **e) { return g_task_propagate_pointer (G_TASK (res), e); }
static GList *rv_lookup0 (GResolver *r, const char *name, GCancellable *c, GError **e) { return rv_plan (name, e); }
static void rv_async0 (GResolver *r, const char *name, GCancellable *c, GAsyncReadyCallback cb, gpointer d) { rv_async (r, name, 0, c, cb, d); }
static void v_rv_class_init (VRvClass *k) { GResolverClass *c = G_RESOLVER_CLASS (k); c->lookup_by_name = rv_lookup0; c->lookup_by_name_async = rv_async0; c->lookup_by_name_finish = rv_finish; c->lookup_by_name_with_flags = rv_lookup; c->lookup_by_name_with_flags_async = rv_async; c->lookup_by_name_with_flags_finish = rv_finish; }
static void v_rv_init (VRv *r) {}

static void
run_net (Twin *t)
{
  char *path = g_build_filename (t->dir, "sock", NULL);
  GSocketListener *ls = g_socket_listener_new ();
  GSocketAddress *ad = g_unix_socket_address_new (path);
  guint n = 1 + v_below (&t->rng, 4);
  GError *le = NULL;
  if (!g_socket_listener_add_address (ls, ad, G_SOCKET_TYPE_STREAM, 0, NULL, NULL, &le)) v_fail ("harness-listen", "%s", le->message);
  while (n--)
    {
      GSocketClient *cl = g_socket_client_new ();
      GSocketConnection *a, *b = NULL;
      guint k = v_below (&t->rng, 8);
      if (k < 3)
        {
          STEP ("connect");
          a = DO_OBJ (G_TYPE_SOCKET_CONNECTION, dex_socket_client_connect (cl, G_SOCKET_CONNECTABLE (ad)), g_socket_client_connect (cl, G_SOCKET_CONNECTABLE (ad), NULL, &e));
          if (a)
            {
              char x[8] = "", y[] = "payload";
              STEP ("accept");
              b = DO_OBJ (G_TYPE_SOCKET_CONNECTION, dex_socket_listener_accept (ls), g_socket_listener_accept (ls, NULL, NULL, &e));
              if (b)
                {
                  STEP ("sock_write"); DO_INT (dex_output_stream_write (g_io_stream_get_output_stream (G_IO_STREAM (a)), y, 7, t->prio), g_output_stream_write (g_io_stream_get_output_stream (G_IO_STREAM (a)), y, 7, NULL, &e));
                  if (v_chance (&t->rng, 50)) { STEP ("sock_close"); DO_BOOL (dex_io_stream_close (G_IO_STREAM (a), t->prio), g_io_stream_close (G_IO_STREAM (a), NULL, &e)); }
                  STEP ("sock_read"); DO_INT (dex_input_stream_read (g_io_stream_get_input_stream (G_IO_STREAM (b)), x, 7, t->prio), g_input_stream_read (g_io_stream_get_input_stream (G_IO_STREAM (b)), x, 7, NULL, &e));
                  v_check (!strcmp (x, y), "gio-data", "'%s' came through the socket", x);
                }
              g_clear_object (&b); g_object_unref (a);
            }
        }
      else if (k == 3)
        {
          char *q = g_build_filename (t->dir, "nobody", NULL);
          GSocketAddress *bad = g_unix_socket_address_new (q);
          STEP ("connect_nobody");
          a = DO_OBJ (G_TYPE_SOCKET_CONNECTION, dex_socket_client_connect (cl, G_SOCKET_CONNECTABLE (bad)), g_socket_client_connect (cl, G_SOCKET_CONNECTABLE (bad), NULL, &e));
          g_clear_object (&a); g_object_unref (bad); g_free (q);
        }
      else if (k == 4)
        {
          GSocketListener *l2 = g_socket_listener_new ();
          g_socket_listener_close (l2);
          STEP ("accept_closed");
          b = DO_OBJ (G_TYPE_SOCKET_CONNECTION, dex_socket_listener_accept (l2), g_socket_listener_accept (l2, NULL, NULL, &e));
          g_clear_object (&b); g_object_unref (l2);
        }
      else if (k == 5)
        {
          static const char *names[] = { "host", "longer.host", "hostx", "h", "127.0.0.1", "::1", "localhost", "a.longer.host.name", "tenletters" };
          GResolver *rv = g_object_new (v_rv_get_type (), NULL);
          const char *nm = names[v_below (&t->rng, G_N_ELEMENTS (names))];
          GList *l;
          STEP ("lookup");
          l = DO_BOXED (DEX_TYPE_INET_ADDRESS_LIST, dex_resolver_lookup_by_name (rv, nm), g_resolver_lookup_by_name (rv, nm, NULL, &e));
          for (GList *i = l; i; i = i->next) { char *s = g_inet_address_to_string (i->data); g_string_append_printf (t->log, "  %s\n", s); g_free (s); }
          g_list_free_full (l, g_object_unref);
          g_object_unref (rv);
        }
      else
        {
          static const char *scripts[] = { "exit 0", "exit 3", "kill -9 $$", "exit 0", "exit 255", "kill -TERM $$" };
          const char *sc = scripts[v_below (&t->rng, 6)];
          GSubprocess *sp = g_subprocess_new (G_SUBPROCESS_FLAGS_STDOUT_SILENCE | G_SUBPROCESS_FLAGS_STDERR_SILENCE, NULL, "/bin/sh", "-c", sc, NULL);
          STEP ("wait_check");
          if (sp) { DO_BOOL (dex_subprocess_wait_check (sp), g_subprocess_wait_check (sp, NULL, &e)); g_object_unref (sp); }
        }
      g_object_unref (cl);
    }
  g_socket_listener_close (ls);
  g_object_unref (ls); g_object_unref (ad);
  unlink (path); g_free (path);
}

/* ---------------------------------------------------------------- D-Bus, peer to peer, the other side on a thread of its own */
static GMainLoop *srv_loop; static GMainContext *srv_ctx;
static GDBusConnection *cli, *srv; static GDBusServer *bus; static char *bus_addr;
static int srv_fds[2], srv_ready;
static const char xml[] = "<node><interface name='t.T'>"
  "<method name='Echo'><arg direction='in' type='s'/><arg direction='out' type='s'/></method>"
  "<method name='Add'><arg direction='in' type='i'/><arg direction='in' type='i'/><arg direction='out' type='i'/></method>"
  "<method name='Fail'><arg direction='in' type='s'/></method>"
  "<method name='Silent'/><method name='Nothing'/>"
  "<method name='Fds'><arg direction='in' type='h'/><arg direction='in' type='b'/><arg direction='out' type='h'/></method>"
  "</interface><interface name='org.freedesktop.DBus'><method name='Hello'><arg direction='out' type='s'/></method>"
  "<method name='AddMatch'><arg direction='in' type='s'/></method></interface></node>";
static GPtrArray *silent; static GMutex silent_lock;
static void
srv_call (GDBusConnection *c, const char *sender, const char *path, const char *iface, const char *m, GVariant *v, GDBusMethodInvocation *inv, gpointer d)
{
  if (!strcmp (m, "Echo")) g_dbus_method_invocation_return_value (inv, v);
  else if (!strcmp (m, "Hello")) g_dbus_method_invocation_return_value (inv, g_variant_new ("(s)", ":1.7"));
  else if (!strcmp (m, "Add")) { int a, b; g_variant_get (v, "(ii)", &a, &b); g_dbus_method_invocation_return_value (inv, g_variant_new ("(i)", (int) ((guint) a + (guint) b))); }
  else if (!strcmp (m, "Fail")) { const char *s; g_variant_get (v, "(&s)", &s); g_dbus_method_invocation_return_dbus_error (inv, "t.Error.Failed", s); }
  else if (!strcmp (m, "Nothing") || !strcmp (m, "AddMatch")) g_dbus_method_invocation_return_value (inv, NULL);
  else if (!strcmp (m, "Silent")) { g_mutex_lock (&silent_lock); g_ptr_array_add (silent, inv); g_mutex_unlock (&silent_lock); }
  else if (!strcmp (m, "Fds"))
    {
      gint h; gboolean back; GUnixFDList *in = g_dbus_message_get_unix_fd_list (g_dbus_method_invocation_get_message (inv));
      g_variant_get (v, "(hb)", &h, &back);
      if (!in) g_dbus_method_invocation_return_dbus_error (inv, "t.Error.NoFd", "no descriptors came");
      else if (back) g_dbus_method_invocation_return_value_with_unix_fd_list (inv, g_variant_new ("(h)", h), in);
      else g_dbus_method_invocation_return_value (inv, g_variant_new ("(h)", 0));
    }
}
static const GDBusInterfaceVTable vt = { srv_call, NULL, NULL };
static GDBusNodeInfo *ni;
static gboolean
bus_conn (GDBusServer *s, GDBusConnection *c, gpointer d)
{
  g_dbus_connection_register_object (c, "/org/freedesktop/DBus", ni->interfaces[1], &vt, NULL, NULL, NULL);
  g_object_ref (c);   /* for as long as the process lives */
  return TRUE;
}
static gpointer
srv_thread (gpointer d)
{
  GSocket *sk; GSocketConnection *sc; GError *e = NULL; char *g = g_dbus_generate_guid (), *dir;
  g_main_context_push_thread_default (srv_ctx);
  sk = g_socket_new_from_fd (srv_fds[1], NULL); sc = g_socket_connection_factory_create_connection (sk);
  srv = g_dbus_connection_new_sync (G_IO_STREAM (sc), g, G_DBUS_CONNECTION_FLAGS_AUTHENTICATION_SERVER | G_DBUS_CONNECTION_FLAGS_AUTHENTICATION_ALLOW_ANONYMOUS, NULL, NULL, &e);
  if (!srv) v_fail ("harness-dbus", "server: %s", e->message);
  g_dbus_connection_register_object (srv, "/t", ni->interfaces[0], &vt, NULL, NULL, &e);
  if (e) v_fail ("harness-dbus", "register: %s", e->message);
  g_object_unref (sk); g_object_unref (sc); g_free (g);
  dir = g_strdup_printf ("unix:path=%s/bus", scratch); g = g_dbus_generate_guid ();
  bus = g_dbus_server_new_sync (dir, G_DBUS_SERVER_FLAGS_NONE, g, NULL, NULL, &e);
  if (!bus) v_fail ("harness-dbus", "bus: %s", e->message);
  bus_addr = g_strdup (g_dbus_server_get_client_address (bus));
  g_signal_connect (bus, "new-connection", G_CALLBACK (bus_conn), NULL);
  g_dbus_server_start (bus);
  g_free (dir); g_free (g);
  g_atomic_int_set (&srv_ready, 1);
  g_main_loop_run (srv_loop);
  return NULL;
}
static void
dbus_init (void)
{
  GSocket *sk; GSocketConnection *sc; GError *e = NULL;
  if (cli) return;
  silent = g_ptr_array_new ();
  ni = g_dbus_node_info_new_for_xml (xml, NULL);
  if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, srv_fds)) v_fail ("harness-dbus", "socketpair");
  srv_ctx = g_main_context_new (); srv_loop = g_main_loop_new (srv_ctx, FALSE);
  g_thread_unref (g_thread_new ("dbus-peer", srv_thread, NULL));
  sk = g_socket_new_from_fd (srv_fds[0], NULL); sc = g_socket_connection_factory_create_connection (sk);
  cli = g_dbus_connection_new_sync (G_IO_STREAM (sc), NULL, G_DBUS_CONNECTION_FLAGS_AUTHENTICATION_CLIENT, NULL, NULL, &e);
  if (!cli) v_fail ("harness-dbus", "client: %s", e->message);
  g_object_unref (sk); g_object_unref (sc);
  while (!g_atomic_int_get (&srv_ready)) g_usleep (100);
}
static void
answer_silent (void)
{
  g_mutex_lock (&silent_lock);
  for (guint i = 0; i < silent->len; i++) g_dbus_method_invocation_return_value (silent->pdata[i], NULL);
  g_ptr_array_set_size (silent, 0);
  g_mutex_unlock (&silent_lock);
}
static void
log_variant (Twin *t, GVariant *v) { char *s = v ? g_variant_print (v, TRUE) : g_strdup ("none"); g_string_append_printf (t->log, "  %s\n", s); g_free (s); }
#define DO_VARIANT(dexc, syncc) ({ GError *e = NULL; GVariant *_r = NULL; if (t->dex) { DexFuture *_f = dexc; const GValue *_v = finish (t, _f, &e); WANT (_v, G_TYPE_VARIANT); if (_v) _r = g_value_dup_variant (_v); dex_unref (_f); } else { _r = syncc; } if (e) log_error (t, e); else { g_string_append (t->log, " variant\n"); log_variant (t, _r); } g_clear_error (&e); _r; })
static void
run_dbus (Twin *t)
{
  guint n = 1 + v_below (&t->rng, 5);
  while (n--)
    {
      const char *m = "Echo"; GVariant *v = NULL, *r; const GVariantType *rt = NULL; const char *path = "/t", *iface = "t.T"; int timeout = v_chance (&t->rng, 50) ? -1 : 20000;
      char s[24]; g_snprintf (s, sizeof s, "text %u", v_below (&t->rng, 1000));
      switch (v_below (&t->rng, 8))
        {
        case 0: v = g_variant_new ("(s)", s); rt = v_chance (&t->rng, 50) ? G_VARIANT_TYPE ("(s)") : v_chance (&t->rng, 50) ? G_VARIANT_TYPE ("(i)") : NULL; break;
        case 1: m = "Add"; v = g_variant_new ("(ii)", (int) v_rand (&t->rng), (int) v_below (&t->rng, 100)); rt = G_VARIANT_TYPE ("(i)"); break;
        case 2: m = "Fail"; v = g_variant_new ("(s)", s); break;
        case 3: m = "Nothing"; rt = v_chance (&t->rng, 50) ? G_VARIANT_TYPE_UNIT : NULL; break;
        case 4: switch (v_below (&t->rng, 3)) { case 0: m = "NoSuch"; break; case 1: path = "/elsewhere"; break; default: iface = "t.Other"; } break;
        case 5: if (v_chance (&t->rng, 30)) { m = "Silent"; timeout = 1 + v_below (&t->rng, 10); } else v = g_variant_new ("(s)", s); break;
        default: v = g_variant_new ("(s)", s);
        }
      switch (v_below (&t->rng, 6))
        {
        case 0: case 1:
          if (v) g_variant_ref (v);
          STEP ("dbus_call");
          r = DO_VARIANT (dex_dbus_connection_call (cli, NULL, path, iface, m, v, rt, G_DBUS_CALL_FLAGS_NONE, timeout), g_dbus_connection_call_sync (cli, NULL, path, iface, m, v, rt, G_DBUS_CALL_FLAGS_NONE, timeout, NULL, &e));
          if (r) g_variant_unref (r);
          if (v) { v_check (!g_variant_is_floating (v) || !t->dex, "gio-floating", "the parameters of a call are still floating"); g_variant_unref (v); }
          break;
        case 2: case 3:
          {
            GDBusMessage *msg = g_dbus_message_new_method_call (NULL, path, iface, m), *rep; guint32 serial = 0;
            if (v) g_dbus_message_set_body (msg, v);
            STEP ("dbus_message");
            rep = DO_OBJ (G_TYPE_DBUS_MESSAGE, dex_dbus_connection_send_message_with_reply (cli, msg, G_DBUS_SEND_MESSAGE_FLAGS_NONE, timeout, &serial), g_dbus_connection_send_message_with_reply_sync (cli, msg, G_DBUS_SEND_MESSAGE_FLAGS_NONE, timeout, &serial, NULL, &e));
            v_check (serial != 0 && serial == g_dbus_message_get_serial (msg), "gio-serial", "serial %u reported for message %u", serial, g_dbus_message_get_serial (msg));
            if (rep)
              {
                v_check (g_dbus_message_get_reply_serial (rep) == serial, "gio-serial", "a reply to message %u for message %u", g_dbus_message_get_reply_serial (rep), serial);
                g_string_append_printf (t->log, "  type %d error %s\n", g_dbus_message_get_message_type (rep), g_dbus_message_get_error_name (rep));
                log_variant (t, g_dbus_message_get_body (rep)); g_object_unref (rep);
              }
            g_object_unref (msg);
          }
          break;
        default:
          {
            GUnixFDList *l = NULL, *out = NULL; gboolean fds = v_chance (&t->rng, 75), back = v_chance (&t->rng, 60); int p[2] = { -1, -1 };
            if (fds) { if (v) g_variant_unref (g_variant_ref_sink (v)); m = "Fds"; path = "/t"; iface = "t.T"; v = g_variant_new ("(hb)", 0, back); rt = v_chance (&t->rng, 80) ? G_VARIANT_TYPE ("(h)") : G_VARIANT_TYPE ("(s)"); timeout = -1; if (v_chance (&t->rng, 85)) { G_GNUC_UNUSED int x = pipe (p); l = g_unix_fd_list_new (); g_unix_fd_list_append (l, p[1], NULL); } }
            STEP ("dbus_fds");
            if (t->dex)
              {
                GError *e = NULL; const GValue *gv, *g2; DexFuture *f2;
                DexFuture *f = dex_dbus_connection_call_with_unix_fd_list (cli, NULL, path, iface, m, v, rt, G_DBUS_CALL_FLAGS_NONE, timeout, l);
                v_check (DEX_IS_FUTURE_SET (f) && dex_future_set_get_size (DEX_FUTURE_SET (f)) == 2, "gio-set", "the call with descriptors is not a set of two futures");
                finish (t, f, &e);
                g_clear_error (&e);
                gv = dex_future_get_value (dex_future_set_get_future_at (DEX_FUTURE_SET (f), 0), &e);
                f2 = dex_future_set_get_future_at (DEX_FUTURE_SET (f), 1);
                v_check (dex_future_is_resolved (f) == (gv != NULL) && !dex_future_is_pending (f2), "gio-set", "the set does not settle with its reply");
                if (gv) { GError *x = NULL; WANT (gv, G_TYPE_VARIANT); g_string_append (t->log, " variant\n"); log_variant (t, g_value_get_variant (gv)); g2 = dex_future_get_value (f2, &x); v_check (g2 && G_VALUE_HOLDS_OBJECT (g2), "gio-type", "the descriptors are of type %s", g2 ? G_VALUE_TYPE_NAME (g2) : "error"); out = g_value_dup_object (g2); }
                else { GError *x = NULL; log_error (t, e); v_check (dex_future_get_value (f2, &x) == NULL && x->domain == e->domain && x->code == e->code && !strcmp (x->message, e->message), "gio-set", "the descriptors failed differently than the call"); g_clear_error (&x); }
                g_clear_error (&e);
                dex_unref (f);
              }
            else
              {
                GError *e = NULL;
                r = g_dbus_connection_call_with_unix_fd_list_sync (cli, NULL, path, iface, m, v, rt, G_DBUS_CALL_FLAGS_NONE, timeout, l, &out, NULL, &e);
                if (e) log_error (t, e); else { g_string_append (t->log, " variant\n"); log_variant (t, r); g_variant_unref (r); }
                g_clear_error (&e);
              }
            if (l) { g_object_unref (l); close (p[1]); }
            g_string_append_printf (t->log, "  descriptors %d\n", out ? g_unix_fd_list_get_length (out) : -1);
            if (out && g_unix_fd_list_get_length (out) > 0 && p[0] >= 0)
              {
                /* the same pipe? */
                int fd = g_unix_fd_list_get (out, 0, NULL); char c = 0;
                G_GNUC_UNUSED ssize_t x = write (fd, "z", 1); x = read (p[0], &c, 1); close (fd);
                g_string_append_printf (t->log, "  got %c\n", c);
              }
            g_clear_object (&out);
            if (p[0] >= 0) close (p[0]);
          }
        }
      if (!strcmp (m, "Silent")) answer_silent ();
    }
}
static void
run_bus (Twin *t)
{
  GDBusConnection *c;
  guint k = v_below (&t->rng, 3);
  STEP ("bus_get");
  if (k == 0)
    {
      /* not there */
      g_setenv ("DBUS_SYSTEM_BUS_ADDRESS", "unix:path=/nonexistent/bus", TRUE);
      c = DO_OBJ (G_TYPE_DBUS_CONNECTION, dex_bus_get (G_BUS_TYPE_SYSTEM), g_bus_get_sync (G_BUS_TYPE_SYSTEM, NULL, &e));
    }
  else c = DO_OBJ (G_TYPE_DBUS_CONNECTION, dex_bus_get (G_BUS_TYPE_SESSION), g_bus_get_sync (G_BUS_TYPE_SESSION, NULL, &e));
  if (c)
    {
      g_dbus_connection_set_exit_on_close (c, FALSE);
      g_string_append_printf (t->log, "  %s\n", g_dbus_connection_get_unique_name (c));
      g_object_unref (c);
    }
}

/* ---------------------------------------------------------------- the two runs and the comparison */
static DexFuture *in_fiber (gpointer d) { Twin *t = d; t->func (t); return dex_future_new_true (); }
static void
twins (void (*func) (Twin *))
{
  gint64 l0;
  VRng r = { v_rand (&v_rng) }, tree = { v_rand (&v_rng) };
  char *a = g_strdup_printf ("%s/A%u", scratch, v_iter), *b = g_strdup_printf ("%s/B%u", scratch, v_iter);
  Twin ta = { TRUE, v_below (&v_rng, 3), a, g_string_new (NULL), r, 0, 0, func }, tb = { FALSE, IN_MAIN, b, g_string_new (NULL), r, 0, 0, func };
  v_pool (); l0 = v_base ();
  make_tree (a, tree); make_tree (b, tree);
  func (&tb);
  if (ta.where == IN_MAIN) func (&ta);
  else
    {
      DexFuture *f = dex_scheduler_spawn (ta.where == IN_POOL ? v_pool () : NULL, 512 * 1024, in_fiber, &ta, NULL);
      v_run_until_settled (f, ta.what ? ta.what : "a program of wrapped operations");
      dex_unref (f);
    }
  if (strcmp (ta.log->str, tb.log->str))
    {
      char **x = g_strsplit (ta.log->str, "\n", -1), **y = g_strsplit (tb.log->str, "\n", -1);
      guint i = 0, w = 0;
      while (x[i] && y[i] && !strcmp (x[i], y[i])) { if (x[i][0] != ' ') w = i; i++; }
      v_fail ("gio-differs", "after '%s' the wrapper gave '%s', the GIO call '%s'", i && x[w] ? x[w] : "", x[i] ? x[i] : "nothing", y[i] ? y[i] : "nothing");
    }
  v_eval (ta.ops);
  v_sigf ("%u %s", ta.where, ta.log->str);
  v_sample ("%d operations in place %u, first lines: %.160s", ta.ops, ta.where, ta.log->str);
  v_count ("operations", ta.ops);
  rm_rf (a); rm_rf (b);
  g_free (a); g_free (b);
  g_string_free (ta.log, TRUE); g_string_free (tb.log, TRUE);
  v_expect_live (l0, "wrapped operations");
}
static void s_files (void) { twins (run_files); }
static void s_streams (void) { twins (run_streams); }
static void s_net (void) { twins (run_net); }
static void s_dbus (void) { dbus_init (); twins (run_dbus); }
static void s_bus (void) { dbus_init (); g_setenv ("DBUS_SESSION_BUS_ADDRESS", bus_addr, TRUE); twins (run_bus); }

/* ================================================================ dropped */
enum { D_ACCEPT, D_PIPE_READ, D_PIPE_BYTES, D_PIPE_SKIP, D_SPLICE, D_CALL, D_MESSAGE, D_FDS, D_WAIT, D_PIPE_WRITE, D_PIPE_WRITEB, D_BLOCKING /* never end by themselves */,
       D_FREAD = D_BLOCKING, D_REPLACE, D_INFO, D_MKDIR, D_ENUM, D_COPY, D_LOAD, D_EXISTS, D_CONNECT, D_CLOSE, D_LOOKUP, D_BUS, D_ALL };
static const char *d_names[] = { "accept", "read", "read_bytes", "skip", "splice", "call", "message", "call with descriptors", "wait_check", "write", "write_bytes", "file_read", "replace", "query_info", "make_directory", "enumerate", "copy", "load_contents", "query_exists", "connect", "close", "lookup", "bus_get" };
static DexFuture *got_cb (DexFuture *f, gpointer d) { (*(int *) d)++; return dex_ref (f); }
static void fill_pipe (int fd) { char b[4096] = { 0 }; fcntl (fd, F_SETFL, O_NONBLOCK); while (write (fd, b, sizeof b) > 0); while (write (fd, b, 1) > 0); }
static gboolean only_ref (gpointer o) { return g_atomic_int_get (&G_OBJECT (o)->ref_count) == 1; }
static void
s_drop (void)
{
  gint64 l0;
  guint k = v_below (&v_rng, D_ALL), how = v_below (&v_rng, 4);
  char *dir = g_strdup_printf ("%s/D%u", scratch, v_iter), *p;
  VRng r = { v_rand (&v_rng) };
  DexFuture *f = NULL, *t, *held = NULL;
  GObject *o = NULL, *o2 = NULL; GFile *file, *file2; GSubprocess *sp = NULL; GSocketAddress *ad = NULL; GDBusMessage *msg = NULL;
  GCancellable *c; int told = 0, pp[2] = { -1, -1 }; guchar buf[64];
  gboolean finished, cancelled;
  dbus_init ();
  v_pool (); l0 = v_base ();
  make_tree (dir, r);
  p = g_build_filename (dir, "f0", NULL); file = g_file_new_for_path (p); g_free (p);
  p = g_build_filename (dir, "new", NULL); file2 = g_file_new_for_path (p); g_free (p);
  memset (&seen, 0, sizeof seen); armed = TRUE;
  switch (k)
    {
    case D_ACCEPT: o = (GObject *) g_socket_listener_new (); p = g_build_filename (dir, "s", NULL); ad = g_unix_socket_address_new (p); g_free (p); g_socket_listener_add_address (G_SOCKET_LISTENER (o), ad, G_SOCKET_TYPE_STREAM, 0, NULL, NULL, NULL); f = dex_socket_listener_accept (G_SOCKET_LISTENER (o)); break;
    case D_PIPE_READ: case D_PIPE_BYTES: case D_PIPE_SKIP: case D_SPLICE:
      if (pipe (pp)) abort ();
      o = (GObject *) g_unix_input_stream_new (pp[0], FALSE);
      if (k == D_PIPE_READ) f = dex_input_stream_read (G_INPUT_STREAM (o), buf, sizeof buf, 0);
      else if (k == D_PIPE_BYTES) f = dex_input_stream_read_bytes (G_INPUT_STREAM (o), 10, 0);
      else if (k == D_PIPE_SKIP) f = dex_input_stream_skip (G_INPUT_STREAM (o), 10, 0);
      else { o2 = (GObject *) g_memory_output_stream_new_resizable (); f = dex_output_stream_splice (G_OUTPUT_STREAM (o2), G_INPUT_STREAM (o), 0, 0); }
      break;
    case D_PIPE_WRITE: case D_PIPE_WRITEB:
      if (pipe (pp)) abort ();
      fill_pipe (pp[1]);
      o = (GObject *) g_unix_output_stream_new (pp[1], FALSE);
      if (k == D_PIPE_WRITE) f = dex_output_stream_write (G_OUTPUT_STREAM (o), "abc", 3, 0);
      else { GBytes *b = g_bytes_new ("abc", 3); f = dex_output_stream_write_bytes (G_OUTPUT_STREAM (o), b, 0); g_bytes_unref (b); }
      break;
    case D_CALL: f = dex_dbus_connection_call (cli, NULL, "/t", "t.T", "Silent", NULL, NULL, 0, G_MAXINT); break;
    case D_MESSAGE: msg = g_dbus_message_new_method_call (NULL, "/t", "t.T", "Silent"); f = dex_dbus_connection_send_message_with_reply (cli, msg, 0, G_MAXINT, NULL); break;
    case D_FDS: f = dex_dbus_connection_call_with_unix_fd_list (cli, NULL, "/t", "t.T", "Silent", NULL, NULL, 0, G_MAXINT, NULL); break;
    case D_WAIT: sp = g_subprocess_new (0, NULL, "/bin/sleep", "1000", NULL); f = dex_subprocess_wait_check (sp); break;
    case D_FREAD: f = dex_file_read (file, 0); break;
    case D_REPLACE: f = dex_file_replace (file, NULL, FALSE, 0, 0); break;
    case D_INFO: f = dex_file_query_info (file, "standard::*", 0, 0); break;
    case D_MKDIR: f = dex_file_make_directory (file2, 0); break;
    case D_ENUM: { GFile *d = g_file_new_for_path (dir); f = dex_file_enumerate_children (d, "standard::*", 0, 0); g_object_unref (d); } break;
    case D_COPY: f = dex_file_copy (file, file2, 0, 0); break;
    case D_LOAD: f = dex_file_load_contents_bytes (file); break;
    case D_EXISTS: f = dex_file_query_exists (file); break;
    case D_CONNECT: { GSocketClient *cl = g_socket_client_new (); p = g_build_filename (dir, "nobody", NULL); ad = g_unix_socket_address_new (p); g_free (p); f = dex_socket_client_connect (cl, G_SOCKET_CONNECTABLE (ad)); g_object_unref (cl); } break;
    case D_CLOSE: o = (GObject *) g_memory_input_stream_new_from_data ("abc", 3, NULL); f = dex_input_stream_close (G_INPUT_STREAM (o), 0); break;
    case D_LOOKUP: { GResolver *rv = g_object_new (v_rv_get_type (), NULL); f = dex_resolver_lookup_by_name (rv, "host.x"); g_object_unref (rv); } break;
    default: g_setenv ("DBUS_SYSTEM_BUS_ADDRESS", "unix:path=/nonexistent/bus", TRUE); f = dex_bus_get (G_BUS_TYPE_SYSTEM);
    }
  armed = FALSE;
  c = seen.c; seen.c = NULL;
  t = dex_future_finally (how == 3 ? dex_future_all (dex_ref (f), NULL) : dex_ref (f), got_cb, &told, NULL);
  if (v_chance (&v_rng, 60)) held = dex_ref (f);
  dex_unref (f);
  if (k != D_FDS || how != 3) { if (v_chance (&v_rng, 50)) for (guint i = v_below (&v_rng, 5); i; i--) g_main_context_iteration (NULL, FALSE); }
  finished = k >= D_BLOCKING && (held ? !dex_future_is_pending (held) : TRUE);
  if (k < D_BLOCKING && held) v_check (dex_future_is_pending (held), "gio-early", "%s settled though nothing happened", d_names[k]);
  if (c) v_check (!g_cancellable_is_cancelled (c), "gio-cancel-early", "%s was cancelled before anybody lost interest", d_names[k]);
  dex_clear (&t);
  if (k == D_FDS) dex_clear (&held);   /* a set, whose futures are to be released with it */
  cancelled = c && g_cancellable_is_cancelled (c);
  if (c && !finished) v_check (cancelled, "gio-not-cancelled", "%s goes on after the last dependent of its future left", d_names[k]);
  if (held) { v_run_until_settled (held, d_names[k]); if (k < D_BLOCKING) { int out = v_out_read (held, d_names[k]); v_check (out == V_OUT_IOERR + 2 * G_IO_ERROR_CANCELLED, "gio-not-cancelled", "%s ended with %s after it was dropped", d_names[k], v_out_str (out)); } }
  v_check (told == 0 || finished || k >= D_BLOCKING, "gio-told", "a callback ran after it had been dropped");
  dex_clear (&held);
  /* the reply that was not waited for comes in without anybody to take it */
  v_expect_live (l0, d_names[k]);
  if (c) { v_run_until (only_ref, c, "the cancellable of a dropped operation"); g_object_unref (c); }
  if (sp) { g_subprocess_force_exit (sp); g_subprocess_wait (sp, NULL, NULL); g_object_unref (sp); }
  if (o) { v_run_until (only_ref, o, "the object of a dropped operation"); if (k == D_ACCEPT) g_socket_listener_close (G_SOCKET_LISTENER (o)); g_object_unref (o); }
  g_clear_object (&o2); g_clear_object (&ad); g_clear_object (&msg);
  if (pp[0] >= 0) { close (pp[0]); close (pp[1]); }
  g_object_unref (file); g_object_unref (file2);
  answer_silent ();
  rm_rf (dir); g_free (dir);
  v_eval (3); v_event (1);
  v_sigf ("%u %u %d %d", k, how, cancelled, told);
  v_sample ("%s dropped: %scancelled, callback ran %d times", d_names[k], cancelled ? "" : "not ", told);
  v_count ("cancelled", cancelled);
}

static const VScenario scenarios[] = {
  { "files", s_files, 100 }, { "streams", s_streams, 150 }, { "net", s_net, 60 }, { "dbus", s_dbus, 60 }, { "bus", s_bus, 10 }, { "drop", s_drop, 100 },
  { NULL }
};
static void cleanup (void) { if (scratch) rm_rf (scratch); }
int
main (int argc, char **argv)
{
  int r;
  /* everything that touches files stays in here */
  g_setenv ("GIO_USE_VFS", "local", TRUE); g_setenv ("GSETTINGS_BACKEND", "memory", TRUE); g_setenv ("GIO_USE_PROXY_RESOLVER", "dummy", TRUE);
  scratch = g_dir_make_tmp ("verif-gio-XXXXXX", NULL);
  atexit (cleanup);
  r = v_main (argc, argv, scenarios);
  return r;
}
