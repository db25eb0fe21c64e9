/* C33: whatever the library makes on first use, asked for by several threads at once.
 * Only a fresh process has a first use, so every case is a process of its own. */
#include "vout.h"
#include <spawn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "dex-block-private.h"
#include "dex-semaphore-private.h"
#include "dex-stack-private.h"
#include "dex-platform.h"

enum { K_POOL, K_BOOL, K_FIBER, K_FIBERS, K_CHANNEL, K_SETS, K_DELAYED, K_TIMEOUT, K_CANCELLABLE, K_SEMAPHORE, K_SIGNAL, K_AIO, K_AIOFIBER, K_RESULT, K_ENUM, K_STACK, K_INFINITE, K_BLOCK, K_WHERE, K_VALUES, N_KINDS };
#define MAXT 8
#define STEPS 3
typedef struct { guint n; int plan[MAXT][STEPS]; _Atomic (gpointer) pool, t, f, quark; _Atomic gsize page, stk; _Atomic (gpointer) types[4]; _Atomic guint64 ran; } Cold;

static void
make_plan (VRng *r, Cold *c)
{
  c->n = 2 + v_below (r, MAXT - 1);
  int common = v_below (r, N_KINDS);
  guint same = v_chance (r, 70) ? 100 : 50;
  for (guint i = 0; i < c->n; i++)
    for (guint s = 0; s < STEPS; s++)
      c->plan[i][s] = s == 0 && v_chance (r, same) ? common : (int) v_below (r, N_KINDS);
}
/* everyone has to get the same thing */
static void
same_ptr (_Atomic (gpointer) *slot, gpointer got, const char *what)
{
  gpointer none = NULL;
  v_check (got != NULL, "cold-none", "%s: none", what);
  if (!atomic_compare_exchange_strong (slot, &none, got)) v_check (none == got, "cold-two", "two threads were given different %ss", what);
  v_eval (1);
}
static void
poll_settled (DexFuture *f, const char *what)
{
  gint64 end = g_get_monotonic_time () + 30 * G_USEC_PER_SEC;
  while (dex_future_is_pending (f)) { g_usleep (50); v_check (g_get_monotonic_time () < end, "stall", "%s did not settle", what); }
}
static void
expect_int (DexFuture *f, int want, const char *what)
{
  GError *e = NULL;
  const GValue *v;
  poll_settled (f, what);
  v = dex_future_get_value (f, &e);
  v_check (v != NULL, "cold-outcome", "%s was rejected: %s", what, e ? e->message : "no error");
  v_check ((G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == want) || (G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == want), "cold-outcome", "%s has another value (%s)", what, G_VALUE_TYPE_NAME (v));
  v_eval (1);
}
static void
expect_error (DexFuture *f, GQuark q, int code, const char *what)
{
  GError *e = NULL;
  poll_settled (f, what);
  v_check (dex_future_get_value (f, &e) == NULL && g_error_matches (e, q, code), "cold-outcome", "%s gave %s", what, e ? e->message : "a value");
  g_clear_error (&e);
  v_eval (1);
}
static DexFuture *fib_plain (gpointer d) { char a[2048]; memset (a, GPOINTER_TO_INT (d), sizeof a); return dex_future_new_for_int (a[GPOINTER_TO_INT (d)]); }
static DexFuture *
fib_wait (gpointer d)
{
  GError *e = NULL;
  dex_await (dex_timeout_new_usec (GPOINTER_TO_INT (d) * 10), &e);
  v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_TIMED_OUT), "cold-outcome", "a timeout awaited in a fiber gave %s", e ? e->message : "no error");
  g_clear_error (&e);
  return dex_future_new_for_int (GPOINTER_TO_INT (d));
}
static int zero_fd = -1;
static DexFuture *
fib_read (gpointer d)
{
  char b[64]; gint64 n; GError *e = NULL;
  memset (b, 7, sizeof b);
  n = dex_await_int64 (dex_aio_read (NULL, zero_fd, b, sizeof b, -1), &e);
  v_check (n == sizeof b && !e, "cold-outcome", "reading /dev/zero gave %" G_GINT64_FORMAT " (%s)", n, e ? e->message : "");
  for (guint i = 0; i < sizeof b; i++) v_check (b[i] == 0, "cold-outcome", "bytes of /dev/zero are not zero");
  return dex_future_new_for_int (GPOINTER_TO_INT (d));
}
static DexFuture *cb_pass (DexFuture *f, gpointer d) { return dex_future_new_for_int (GPOINTER_TO_INT (d)); }
static void item (gpointer d) { dex_promise_resolve_int (d, 77); dex_unref (d); }
static void ready (GObject *o, GAsyncResult *r, gpointer d) { *(_Atomic int *) d = 1 + dex_async_result_propagate_int (DEX_ASYNC_RESULT (r), NULL); }

static void
cold_thread (guint idx, VRng *rng, gpointer data)
{
  Cold *c = data;
  for (guint s = 0; s < STEPS; s++)
    {
      int k = c->plan[idx][s], id = 1 + (int) (idx * STEPS + s);
      DexFuture *f = NULL;
      v_noise_point ();
      switch (k)
        {
        case K_POOL:
          {
            DexPromise *p = dex_promise_new ();
            same_ptr (&c->pool, dex_thread_pool_scheduler_get_default (), "default pool");
            dex_scheduler_push (dex_thread_pool_scheduler_get_default (), item, dex_ref (p));
            expect_int (DEX_FUTURE (p), 77, "an item of the default pool");
            dex_unref (p);
          }
          break;
        case K_BOOL:
          {
            DexFuture *t = dex_future_new_true (), *g = dex_future_new_false ();
            const GValue *v = dex_future_get_value (t, NULL), *w = dex_future_get_value (g, NULL);
            v_check (v && w && G_VALUE_HOLDS_BOOLEAN (v) && g_value_get_boolean (v) == TRUE && G_VALUE_HOLDS_BOOLEAN (w) && g_value_get_boolean (w) == FALSE, "cold-outcome", "true and false are something else");
            dex_unref (t); dex_unref (g);
            v_eval (1);
          }
          break;
        case K_FIBER:
          f = dex_scheduler_spawn (dex_thread_pool_scheduler_get_default (), 0, fib_plain, GINT_TO_POINTER (id), NULL);
          expect_int (f, id, "a fiber of the pool");
          break;
        case K_FIBERS:
          {
            DexFuture *a[6];
            for (int i = 0; i < 6; i++) a[i] = dex_scheduler_spawn (dex_thread_pool_scheduler_get_default (), (i & 1) ? 65536 : 0, i < 3 ? fib_plain : fib_wait, GINT_TO_POINTER (id + i), NULL);
            for (int i = 0; i < 6; i++) { expect_int (a[i], id + i, "one of several fibers"); dex_unref (a[i]); }
          }
          break;
        case K_CHANNEL:
          {
            DexChannel *ch = dex_channel_new (2);
            DexFuture *r = dex_channel_receive (ch), *w = dex_channel_send (ch, dex_future_new_for_int (id));
            expect_int (r, id, "a value through a channel");
            poll_settled (w, "a send");
            dex_channel_close_send (ch);
            f = dex_channel_receive (ch);
            expect_error (f, DEX_ERROR, DEX_ERROR_CHANNEL_CLOSED, "receiving from a closed channel");
            dex_unref (r); dex_unref (w); dex_unref (ch);
          }
          break;
        case K_SETS:
          {
            DexPromise *p = dex_promise_new ();
            DexFuture *a = dex_future_all (dex_ref (p), dex_future_new_for_int (1), NULL);
            DexFuture *b = dex_future_first (dex_ref (p), NULL);
            dex_promise_resolve_int (p, id);
            expect_int (b, id, "the first of one");
            poll_settled (a, "all of two");
            v_check (dex_future_is_resolved (a) && dex_future_set_get_size (DEX_FUTURE_SET (a)) == 2, "cold-outcome", "all of two");
            dex_unref (a); dex_unref (b); dex_unref (p);
          }
          break;
        case K_DELAYED:
          f = dex_delayed_new (dex_future_new_for_int (id));
          v_check (dex_future_is_pending (f), "cold-outcome", "a delayed future did not wait");
          dex_delayed_release (DEX_DELAYED (f));
          expect_int (f, id, "a delayed future");
          break;
        case K_TIMEOUT:
          f = dex_timeout_new_usec (v_below (rng, 2000));
          expect_error (f, DEX_ERROR, DEX_ERROR_TIMED_OUT, "a timeout");
          break;
        case K_CANCELLABLE:
          f = dex_cancellable_new ();
          dex_cancellable_cancel (DEX_CANCELLABLE (f));
          expect_error (f, G_IO_ERROR, G_IO_ERROR_CANCELLED, "a cancelled future");
          break;
        case K_SEMAPHORE:
          {
            DexSemaphore *m = dex_semaphore_new ();
            dex_semaphore_post (m);
#ifdef HAVE_EVENTFD
            if (FALSE)
#endif
            { f = dex_semaphore_wait (m); poll_settled (f, "a wait with a post"); }
            dex_unref (m);
          }
          break;
        case K_SIGNAL:
          f = dex_unix_signal_new (SIGUSR2);
          v_check (dex_future_is_pending (f), "cold-outcome", "a signal future does not wait");
          break;
        case K_AIO:
        case K_AIOFIBER:
          f = dex_scheduler_spawn (k == K_AIO && idx % 2 ? dex_scheduler_get_default () : dex_thread_pool_scheduler_get_default (), 0, fib_read, GINT_TO_POINTER (id), NULL);
          expect_int (f, id, "a fiber that reads");
          break;
        case K_RESULT:
          {
            GMainContext *ctx = g_main_context_new ();
            DexAsyncResult *r;
            _Atomic int got = 0;
            gint64 end = g_get_monotonic_time () + 30 * G_USEC_PER_SEC;
            g_main_context_push_thread_default (ctx);
            r = dex_async_result_new (NULL, NULL, ready, &got);
            dex_async_result_await (r, dex_future_new_for_int (id));
            while (!got) { g_main_context_iteration (ctx, FALSE); v_check (g_get_monotonic_time () < end, "stall", "an asynchronous result did not answer"); }
            v_check (got == 1 + id, "cold-outcome", "an asynchronous result gave %d, not %d", got - 1, id);
            g_object_unref (r);
            g_main_context_pop_thread_default (ctx);
            g_main_context_unref (ctx);
            v_eval (1);
          }
          break;
        case K_ENUM:
          {
            GEnumClass *ec = g_type_class_ref (DEX_TYPE_FUTURE_STATUS);
            same_ptr (&c->types[0], GSIZE_TO_POINTER (DEX_TYPE_FUTURE_STATUS), "status type");
            v_check (ec->n_values == 3 && g_enum_get_value (ec, DEX_FUTURE_STATUS_REJECTED) && !strcmp (g_enum_get_value (ec, DEX_FUTURE_STATUS_REJECTED)->value_nick, "rejected"), "cold-outcome", "the status enumeration is incomplete");
            g_type_class_unref (ec);
            same_ptr (&c->quark, GUINT_TO_POINTER (dex_error_quark ()), "error quark");
            same_ptr (&c->types[1], GSIZE_TO_POINTER (DEX_TYPE_DELAYED), "type");
            same_ptr (&c->types[2], GSIZE_TO_POINTER (DEX_TYPE_OBJECT), "object type");
          }
          break;
        case K_STACK:
          {
            DexStack *st = dex_stack_new (v_chance (rng, 50) ? 0 : 1 + v_below (rng, 200000));
            volatile char *p = st->ptr;
            p[0] = 1; p[st->size - 1] = 2;
            v_check (st->size >= (gsize) sysconf (_SC_THREAD_STACK_MIN) && st->size % sysconf (_SC_PAGESIZE) == 0, "cold-outcome", "a first stack of %zu bytes", st->size);
            dex_stack_free (st);
            v_check (dex_get_page_size () == (gsize) sysconf (_SC_PAGESIZE), "cold-outcome", "page size %zu", dex_get_page_size ());
            v_check (dex_get_min_stack_size () >= 2 * (gsize) sysconf (_SC_PAGESIZE), "cold-outcome", "smallest stack %zu", dex_get_min_stack_size ());
            v_eval (2);
          }
          break;
        case K_INFINITE:
          f = dex_future_new_infinite ();
          v_check (dex_future_is_pending (f), "cold-outcome", "an infinite future ended");
          break;
        case K_BLOCK:
          { /* on the main loop, which the main thread runs meanwhile */
            DexPromise *p = dex_promise_new ();
            f = dex_block_new (dex_ref (p), dex_scheduler_get_default (), DEX_BLOCK_KIND_FINALLY, cb_pass, GINT_TO_POINTER (id), NULL);
            dex_promise_resolve_int (p, 0);
            expect_int (f, id, "a continuation on the main loop");
            dex_unref (p);
          }
          break;
        case K_WHERE:
          v_check (dex_scheduler_get_thread_default () == NULL, "cold-outcome", "a new thread has a scheduler");
          v_check (dex_scheduler_get_main_context (dex_scheduler_get_default ()) == g_main_context_default (), "cold-outcome", "the main scheduler has another context");
          v_eval (2);
          break;
        case K_VALUES:
          {
            GValue v = G_VALUE_INIT;
            DexFuture *in = dex_future_new_for_int (id);
            g_value_init (&v, DEX_TYPE_FUTURE);
            dex_value_set_object (&v, (DexObject *) in);
            v_check (dex_value_get_object (&v) == (DexObject *) in, "cold-outcome", "a value holds another object");
            f = dex_future_new_for_value (&v);
            g_value_unset (&v);
            v_check (dex_value_get_object (dex_future_get_value (f, NULL)) == (DexObject *) in, "cold-outcome", "a future in a future");
            dex_unref (in);
            v_eval (2);
          }
          break;
        }
      if (f) dex_unref (f);
      v_event (1);
      atomic_fetch_add (&c->ran, 1);
    }
}
static void
warm (GType t)
{
  guint n;
  GType *c = g_type_children (t, &n);
  g_type_class_ref (t);
  for (guint i = 0; i < n; i++) warm (c[i]);
  g_free (c);
}
static void
s_child (void)
{
  Cold c;
  memset (&c, 0, sizeof c);
  make_plan (&v_rng, &c);
  if (v_opts.tsan)
    {
      /* GLib, which is not instrumented, makes the classes: that order is invisible to the race detector */
      GType t[] = { DEX_TYPE_DELAYED, DEX_TYPE_SEMAPHORE, DEX_TYPE_BLOCK, DEX_TYPE_OBJECT };
      for (guint i = 0; i < G_N_ELEMENTS (t); i++) g_type_class_ref (t[i]);
      warm (DEX_TYPE_OBJECT);
      g_type_class_ref (DEX_TYPE_ASYNC_RESULT); g_type_class_ref (G_TYPE_CANCELLABLE); g_type_class_ref (DEX_TYPE_FUTURE_STATUS);
    }
  zero_fd = open ("/dev/zero", O_RDWR | O_CLOEXEC);
  v_par_ctx (c.n, cold_thread, &c);
  v_check (c.ran == c.n * STEPS, "cold-outcome", "%u of %u uses came to an end", (guint) c.ran, c.n * STEPS);
  v_drain ();
}
static void
s_cold (void)
{
  extern char **environ;
  static char self[512];
  char seed[32], noise[8], out[128], buf[256] = "";
  guint64 ev = 0, ec = 0, sd = v_mix (v_opts.seed * 104729 + v_iter) >> 1;
  char *argv[] = { self, "--scenario", "cold-child", "--iters", "1", "--seed", seed, "--noise", noise, "--out", out, NULL };
  posix_spawnattr_t at;
  pid_t pid; int st, r; FILE *f;
  ssize_t l = readlink ("/proc/self/exe", self, sizeof self - 1);
  g_assert (l > 0); self[l] = 0;
  g_snprintf (seed, sizeof seed, "%" G_GUINT64_FORMAT, sd);
  g_snprintf (noise, sizeof noise, "%d", v_opts.noise);
  g_snprintf (out, sizeof out, "%s/v-cold-%d.json", g_get_tmp_dir (), (int) getpid ());
  posix_spawnattr_init (&at);
  r = posix_spawn (&pid, self, NULL, &at, argv, environ);
  g_assert (r == 0);
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR);
  posix_spawnattr_destroy (&at);
  if ((f = fopen (out, "r"))) { if (fgets (buf, sizeof buf, f)) sscanf (buf, "{\"evals\":%" G_GUINT64_FORMAT ",\"events\":%" G_GUINT64_FORMAT, &ev, &ec); fclose (f); unlink (out); }
  if (WIFSIGNALED (st)) v_fail ("cold-crash", "a fresh process was ended by signal %d (--scenario cold-child --seed %s)", WTERMSIG (st), seed);
  if (WEXITSTATUS (st)) { fprintf (stderr, "fresh process: --scenario cold-child --seed %s ended with %d\n", seed, WEXITSTATUS (st)); _exit (WEXITSTATUS (st)); }
  v_eval (ev); v_event (ec);
  {
    Cold c;
    uint64_t sh = 0, sig;
    VRng rr;
    for (const char *q = "cold-child"; *q; q++) sh = v_hash_add (sh, *q);
    rr.s = v_mix (sd ^ sh) ^ v_mix (1);
    memset (&c, 0, sizeof c);
    make_plan (&rr, &c);
    sig = c.n;
    for (guint i = 0; i < c.n; i++) for (guint s = 0; s < STEPS; s++) sig = v_hash_add (sig, c.plan[i][s]);
    v_sig (sig);
    v_sample ("a fresh process: %u threads, first uses %d %d %d ...", c.n, c.plan[0][0], c.plan[1][0], c.plan[0][1]);
  }
}
static const VScenario scenarios[] = {
  { "cold", s_cold, 100 },
  { "cold-child", s_child, 1 },
  { NULL }
};
int
main (int argc, char **argv)
{
  for (int i = 1; i < argc; i++) if (!strcmp (argv[i], "cold-child")) v_cold = 1;
  return v_main (argc, argv, scenarios);
}
