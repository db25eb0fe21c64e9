#define _GNU_SOURCE
#include "vrt.h"
#include <sched.h>
#include <time.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

VOpts v_opts = { .seed = 1, .iters = 100, .noise = 0 };
VRng v_rng;
guint v_iter;
static volatile guint progress_none, *progress = &progress_none;
const char *v_scen = "-";

/* ================================================================ noise
 * Callbacks of -fsanitize-coverage=trace-pc-guard: called at each basic block
 * edge of the code under test, so delays land anywhere inside it.
 */
static _Atomic int noise_level;
static uint32_t n_guards;
static uint8_t *guard_hit;         /* 1 when ever hit */
static _Atomic uint32_t guard_hits;
#define N_FOCUS 6
static _Atomic uint32_t focus[N_FOCUS];
static _Atomic int focus_left[N_FOCUS];
static _Atomic uint64_t noise_seed;
static _Atomic uint64_t noise_thread_ctr;
static _Atomic uint64_t noise_injected;
typedef struct { uint64_t s; uint64_t gen; } NoiseTls;
static __thread NoiseTls ntls;

__attribute__((no_sanitize("all")))
void __sanitizer_cov_trace_pc_guard_init (uint32_t *start, uint32_t *stop)
{
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++n_guards;
  guard_hit = realloc (guard_hit, n_guards + 1);
  memset (guard_hit, 0, n_guards + 1);
}

static void __attribute__((no_sanitize("all")))
nsleep (long ns)
{
  struct timespec ts = { 0, ns };
  int e = errno;
  nanosleep (&ts, NULL);
  errno = e;
}

static inline uint64_t __attribute__((no_sanitize("all")))
nrand (void)
{
  uint64_t g = atomic_load_explicit (&noise_seed, memory_order_relaxed);
  if (ntls.gen != g)
    {
      ntls.gen = g;
      ntls.s = v_mix (g ^ (atomic_fetch_add_explicit (&noise_thread_ctr, 1, memory_order_relaxed) * 0x9e37ull));
    }
  ntls.s += 0x9e3779b97f4a7c15ull;
  return v_mix (ntls.s);
}

static void __attribute__((no_sanitize("all")))
noise_at (uint32_t g)
{
  int lvl = atomic_load_explicit (&noise_level, memory_order_relaxed);
  if (lvl == 0) return;
  if (lvl == 3)
    {
      for (int i = 0; i < N_FOCUS; i++)
        if (atomic_load_explicit (&focus[i], memory_order_relaxed) == g)
          {
            if (atomic_fetch_sub_explicit (&focus_left[i], 1, memory_order_relaxed) > 0)
              {
                uint64_t r = nrand ();
                if (r & 1)
                  {
                    atomic_fetch_add_explicit (&noise_injected, 1, memory_order_relaxed);
                    nsleep (20000 + (r >> 8) % 400000);
                  }
              }
            return;
          }
      return;
    }
  uint64_t r = nrand ();
  uint32_t p = r & 0xffff;
  uint32_t yield_p = lvl == 2 ? 2600 : 600, sleep_p = lvl == 2 ? 260 : 40;
  if (p < sleep_p)
    {
      atomic_fetch_add_explicit (&noise_injected, 1, memory_order_relaxed);
      nsleep (1000 + ((r >> 16) % (lvl == 2 ? 120000 : 30000)));
    }
  else if (p < yield_p)
    {
      int e = errno;
      atomic_fetch_add_explicit (&noise_injected, 1, memory_order_relaxed);
      sched_yield ();
      errno = e;
    }
  else if (lvl == 2 && p < yield_p + 2000)
    {
      for (volatile int i = 0; i < (int)((r >> 16) & 255); i++) ;
    }
}

__attribute__((no_sanitize("all")))
void __sanitizer_cov_trace_pc_guard (uint32_t *guard)
{
  uint32_t g = *guard;
  if (!g) return;
  if (!guard_hit[g]) { guard_hit[g] = 1; atomic_fetch_add_explicit (&guard_hits, 1, memory_order_relaxed); }
  noise_at (g);
}

void v_noise_point (void) { if (atomic_load (&noise_level)) noise_at (0xfffffff0u); }
static int noise_saved;
void v_noise_off (void) { noise_saved = atomic_exchange (&noise_level, 0); }
void v_noise_on (void) { atomic_store (&noise_level, noise_saved); }

static void
noise_begin_iter (VRng *rng)
{
  atomic_store (&noise_seed, v_rand (rng) | 1);
  atomic_store (&noise_thread_ctr, 0);
  if (v_opts.noise == 3)
    {
      for (int i = 0; i < N_FOCUS; i++)
        {
          uint32_t g = 0;
          for (int t = 0; t < 64 && n_guards; t++)
            {
              g = 1 + v_rand (rng) % n_guards;
              if (guard_hit[g]) break;
            }
          atomic_store (&focus[i], g);
          atomic_store (&focus_left[i], 1 + v_rand (rng) % 6);
        }
    }
  atomic_store (&noise_level, v_opts.noise);
}

/* ================================================================ verdicts */
static GMutex out_mutex;
static _Atomic int n_fails;

static void
fail_out (const char *key, const char *msg)
{
  g_mutex_lock (&out_mutex);
  fprintf (stderr, "VFAIL key=%s scenario=%s seed=%" G_GUINT64_FORMAT " iter=%u noise=%d :: %s\n",
           key, v_scen, v_opts.seed, v_iter, v_opts.noise, msg);
  fflush (stderr);
  g_mutex_unlock (&out_mutex);
}

void
v_fail (const char *key, const char *fmt, ...)
{
  va_list ap;
  char buf[4096];
  va_start (ap, fmt);
  g_vsnprintf (buf, sizeof buf, fmt, ap);
  va_end (ap);
  fail_out (key, buf);
  if (getenv ("V_STOP")) raise (SIGSTOP);
  /* the state of the process is not trusted after a violation */
  _exit (3);
}

const char *v_allow_log;
static GLogWriterOutput
log_writer (GLogLevelFlags level, const GLogField *fields, gsize n_fields, gpointer data)
{
  const char *msg = "", *dom = "";
  for (gsize i = 0; i < n_fields; i++)
    {
      if (!strcmp (fields[i].key, "MESSAGE")) msg = fields[i].value;
      if (!strcmp (fields[i].key, "GLIB_DOMAIN")) dom = fields[i].value;
    }
  if ((level & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING)) && v_allow_log != NULL && strstr (msg, v_allow_log) != NULL)
    return G_LOG_WRITER_HANDLED;
  if (level & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING))
    {
      const char *lv = (level & G_LOG_LEVEL_ERROR) ? "error" : (level & G_LOG_LEVEL_CRITICAL) ? "critical" : "warning";
      char key[200];
      /* key: level + first 60 chars of message with digits/space squeezed */
      int o = g_snprintf (key, sizeof key, "glog-%s:%s:", lv, dom);
      for (const char *c = msg; *c && o < 120; c++)
        if (g_ascii_isalpha (*c) || *c == '_') key[o++] = *c;
        else if (key[o-1] != '-') key[o++] = '-';
      key[o] = 0;
      fail_out (key, msg);
      _exit (3);
    }
  return G_LOG_WRITER_HANDLED;
}

/* ================================================================ accounting */
static _Atomic uint64_t n_evals, n_events;
static GMutex acc_mutex;
static uint64_t *sigs; static guint sigs_cap, sigs_n;
static GPtrArray *samples;
static GHashTable *counters;

void v_eval (guint n) { atomic_fetch_add_explicit (&n_evals, n, memory_order_relaxed); }
void v_event (guint n) { atomic_fetch_add_explicit (&n_events, n, memory_order_relaxed); }

void
v_sig (uint64_t h)
{
  if (!h) h = 1;
  g_mutex_lock (&acc_mutex);
  if (sigs_n * 2 >= sigs_cap)
    {
      guint ocap = sigs_cap; uint64_t *o = sigs;
      sigs_cap = sigs_cap ? sigs_cap * 2 : 4096;
      sigs = calloc (sigs_cap, sizeof *sigs); sigs_n = 0;
      for (guint i = 0; i < ocap; i++)
        if (o[i])
          {
            guint j = o[i] & (sigs_cap - 1);
            while (sigs[j]) j = (j + 1) & (sigs_cap - 1);
            sigs[j] = o[i]; sigs_n++;
          }
      free (o);
    }
  guint j = h & (sigs_cap - 1);
  while (sigs[j] && sigs[j] != h) j = (j + 1) & (sigs_cap - 1);
  if (!sigs[j]) { sigs[j] = h; sigs_n++; }
  g_mutex_unlock (&acc_mutex);
}

void
v_sigf (const char *fmt, ...)
{
  char buf[2048]; va_list ap; uint64_t h = 14695981039346656037ull;
  va_start (ap, fmt); g_vsnprintf (buf, sizeof buf, fmt, ap); va_end (ap);
  for (char *c = buf; *c; c++) h = (h ^ (uint8_t)*c) * 1099511628211ull;
  v_sig (v_mix (h));
}

void
v_sample (const char *fmt, ...)
{
  va_list ap;
  g_mutex_lock (&acc_mutex);
  if (samples->len < 6)
    {
      char *s, *t;
      va_start (ap, fmt); s = g_strdup_vprintf (fmt, ap); va_end (ap);
      t = g_strdup_printf ("%s#%u: %s", v_scen, v_iter, s);
      g_free (s);
      g_ptr_array_add (samples, t);
    }
  g_mutex_unlock (&acc_mutex);
}

void
v_count (const char *name, gint64 n)
{
  gint64 *p;
  g_mutex_lock (&acc_mutex);
  p = g_hash_table_lookup (counters, name);
  if (!p) { p = g_new0 (gint64, 1); g_hash_table_insert (counters, g_strdup (name), p); }
  *p += n;
  g_mutex_unlock (&acc_mutex);
}

/* ================================================================ live objects
 * libdex creates every DexObject with g_type_create_instance() and releases it
 * with g_type_free_instance(); the linker redirects both here.
 */
GTypeInstance *__real_g_type_create_instance (GType type);
void __real_g_type_free_instance (GTypeInstance *inst);
/* The monitor must not order the threads it watches (it would hide races from
 * TSan), so its lock is invisible to sanitizers. */
#define INVISIBLE __attribute__((disable_sanitizer_instrumentation, noinline))
static volatile int live_lock;
INVISIBLE static void
live_acquire (void)
{
  for (;;)
    {
      int v = 1;
      __asm__ volatile ("xchgl %0, %1" : "+r" (v), "+m" (live_lock) : : "memory");
      if (v == 0) return;
      while (live_lock) __asm__ volatile ("pause" ::: "memory");
    }
}
INVISIBLE static void live_release (void) { __asm__ volatile ("" ::: "memory"); live_lock = 0; }
static GHashTable *live_set;       /* ptr -> GType */
static gint64 n_finalized;

#ifdef V_VARIANT_tsan
/* GLib's own tables in these two calls are guarded by locks TSan does not see;
 * the end of the object itself stays visible as a write to all of it */
void AnnotateIgnoreReadsBegin (const char *f, int l); void AnnotateIgnoreReadsEnd (const char *f, int l);
void AnnotateIgnoreWritesBegin (const char *f, int l); void AnnotateIgnoreWritesEnd (const char *f, int l);
void __tsan_write_range (void *addr, unsigned long size);
# define GLIB_BEGIN() do { AnnotateIgnoreReadsBegin (__FILE__, __LINE__); AnnotateIgnoreWritesBegin (__FILE__, __LINE__); } while (0)
# define GLIB_END() do { AnnotateIgnoreWritesEnd (__FILE__, __LINE__); AnnotateIgnoreReadsEnd (__FILE__, __LINE__); } while (0)
#else
# define GLIB_BEGIN() do { } while (0)
# define GLIB_END() do { } while (0)
#endif
/* While accounting, nothing of libdex runs; noise is irrelevant here. */
INVISIBLE GTypeInstance *
__wrap_g_type_create_instance (GType type)
{
  GTypeInstance *inst;
  GLIB_BEGIN ();
  inst = __real_g_type_create_instance (type);
  GLIB_END ();
  if (live_set != NULL)
    {
      gboolean fresh;
      GLIB_BEGIN ();
      live_acquire ();
      fresh = g_hash_table_insert (live_set, inst, GSIZE_TO_POINTER (type));
      live_release ();
      GLIB_END ();
      if (!fresh)
        {
          v_fail ("object-storage-reused", "instance %p created while still live", inst);
        }
    }
  return inst;
}

INVISIBLE void
__wrap_g_type_free_instance (GTypeInstance *inst)
{
  if (live_set != NULL)
    {
      gboolean ok;
      GLIB_BEGIN ();
      live_acquire ();
      ok = g_hash_table_remove (live_set, inst);
      n_finalized++;
      live_release ();
      GLIB_END ();
      if (!ok)
        v_fail ("double-finalize", "instance %p finalized more than once", inst);
      if (((DexObject *)inst)->ref_count != 0)
        v_fail ("finalize-while-referenced", "instance %p (%s) released with ref_count %d", inst,
                G_OBJECT_TYPE_NAME (inst), ((DexObject *)inst)->ref_count);
    }
#ifdef V_VARIANT_tsan
  { GTypeQuery q; GLIB_BEGIN (); g_type_query (G_TYPE_FROM_INSTANCE (inst), &q); GLIB_END (); __tsan_write_range (inst, q.instance_size); }
#endif
  GLIB_BEGIN ();
  __real_g_type_free_instance (inst);
  GLIB_END ();
}

INVISIBLE gint64 v_finalized_total (void) { gint64 r; live_acquire (); r = n_finalized; live_release (); return r; }

INVISIBLE gint64
v_live (void)
{
  gint64 r;
  live_acquire ();
  r = g_hash_table_size (live_set);
  live_release ();
  return r;
}

INVISIBLE gint64
v_live_type (const char *name)
{
  gint64 r = 0; GHashTableIter it; gpointer k, v;
  live_acquire ();
  g_hash_table_iter_init (&it, live_set);
  while (g_hash_table_iter_next (&it, &k, &v))
    if (!strcmp (g_type_name (GPOINTER_TO_SIZE (v)), name)) r++;
  live_release ();
  return r;
}

char *
v_live_dump (void)
{
  GString *s = g_string_new (NULL);
  GHashTableIter it; gpointer k, v;
  GHashTable *c = g_hash_table_new (g_str_hash, g_str_equal);
  live_acquire ();
  g_hash_table_iter_init (&it, live_set);
  while (g_hash_table_iter_next (&it, &k, &v))
    {
      const char *n = g_type_name (GPOINTER_TO_SIZE (v));
      g_hash_table_insert (c, (gpointer)n, GINT_TO_POINTER (GPOINTER_TO_INT (g_hash_table_lookup (c, n)) + 1));
    }
  live_release ();
  g_hash_table_iter_init (&it, c);
  while (g_hash_table_iter_next (&it, &k, &v))
    g_string_append_printf (s, "%s=%d ", (char *)k, GPOINTER_TO_INT (v));
  g_hash_table_unref (c);
  return g_string_free (s, FALSE);
}

/* ================================================================ helpers */
#define STALL_USEC (25 * G_USEC_PER_SEC)

/* All threads but the caller asleep, over many samples in a row: nothing left
 * in this process can make the condition true.  Decided on scheduler states,
 * not on the clock; a merely slow machine shows runnable threads.
 */
static gboolean
quiescent (void)
{
  for (int n = 0; n < 400; n++)
    {
      GDir *dir = g_dir_open ("/proc/self/task", 0, NULL);
      const char *name;
      gboolean busy = FALSE;
      pid_t self = gettid ();
      if (!dir) return FALSE;
      while ((name = g_dir_read_name (dir)))
        {
          char path[96], buf[512]; FILE *f; char *p;
          if (atoi (name) == self) continue;
          g_snprintf (path, sizeof path, "/proc/self/task/%s/stat", name);
          if (!(f = fopen (path, "r"))) continue;
          if (fgets (buf, sizeof buf, f) && (p = strrchr (buf, ')')) && p[2] != 'S') busy = TRUE;
          fclose (f);
        }
      g_dir_close (dir);
      if (busy) return FALSE;
      nsleep (5 * 1000 * 1000);
    }
  return TRUE;
}

static void
stalled (const char *what)
{
  char *d = v_live_dump ();
  gboolean q = quiescent ();
  v_fail (q ? "stall" : "stall-unconfirmed", "condition not reached%s: %s (live: %s)",
          q ? " and every other thread asleep for good" : " within 25s", what, d);
}

static gboolean
wake_cb (gpointer d)
{
  return G_SOURCE_CONTINUE;
}

gboolean
v_run_until (VCond cond, gpointer data, const char *what)
{
  gint64 deadline = g_get_monotonic_time () + STALL_USEC;
  GSource *tick = NULL;
  guint spins = 0;

  while (!cond (data))
    {
      if (!g_main_context_iteration (NULL, FALSE))
        {
          /* nothing ready: block, with a tick so that conditions that change
           * without a wakeup of this context are noticed */
          if (++spins > 20)
            {
              if (tick == NULL)
                {
                  tick = g_timeout_source_new (1);
                  g_source_set_callback (tick, wake_cb, NULL, NULL);
                  g_source_attach (tick, NULL);
                }
              g_main_context_iteration (NULL, TRUE);
            }
          else
            g_thread_yield ();
        }
      if (g_get_monotonic_time () > deadline)
        stalled (what);
    }
  if (tick) { g_source_destroy (tick); g_source_unref (tick); }
  return TRUE;
}

/* like v_run_until(), but blocks for as long as nothing wakes the main context
 * up, and does not look at the condition otherwise: a wakeup that should have
 * come and did not is a violation */
static gboolean block_tick_cb (gpointer d) { *(gboolean *) d = TRUE; return G_SOURCE_CONTINUE; }
gboolean
v_block_until (VCond cond, gpointer data, const char *what)
{
  gboolean fired = FALSE;
  gint64 deadline = g_get_monotonic_time () + STALL_USEC;
  GSource *tick = g_timeout_source_new (9000);
  g_source_set_callback (tick, block_tick_cb, &fired, NULL);
  g_source_attach (tick, NULL);
  while (!cond (data))
    {
      gint64 t0 = g_get_monotonic_time ();
      fired = FALSE;
      g_main_context_iteration (NULL, TRUE);
      if (fired && g_get_monotonic_time () - t0 > 8 * G_USEC_PER_SEC)
        {
          gboolean more = g_main_context_iteration (NULL, FALSE);
          if (more || cond (data))
            v_fail ("not-woken", "%s: the idle main loop slept for 9s although there was something to do", what);
        }
      if (g_get_monotonic_time () > deadline)
        stalled (what);
    }
  g_source_destroy (tick); g_source_unref (tick);
  return TRUE;
}

static gboolean settled_cond (gpointer d) { return dex_future_get_status (d) != DEX_FUTURE_STATUS_PENDING; }
gboolean v_run_until_settled (DexFuture *f, const char *what) { return v_run_until (settled_cond, f, what); }
typedef struct { int *c; int t; } CntCond;
static gboolean count_cond (gpointer d) { CntCond *c = d; return g_atomic_int_get (c->c) >= c->t; }
gboolean v_block_until_settled (DexFuture *f, const char *what) { return v_block_until (settled_cond, f, what); }
gboolean v_block_until_count (int *counter, int target, const char *what) { CntCond c = { counter, target }; return v_block_until (count_cond, &c, what); }
gboolean v_run_until_count (int *counter, int target, const char *what) { CntCond c = { counter, target }; return v_run_until (count_cond, &c, what); }

gboolean
v_wait_count (int *counter, int target, const char *what)
{
  gint64 deadline = g_get_monotonic_time () + STALL_USEC;
  guint n = 0;
  while (g_atomic_int_get (counter) < target)
    {
      if (++n < 200) g_thread_yield (); else g_usleep (100);
      if (g_get_monotonic_time () > deadline)
        stalled (what);
    }
  return TRUE;
}

void
v_drain (void)
{
  guint idle = 0;
  while (idle < 3)
    {
      if (g_main_context_iteration (NULL, FALSE)) idle = 0;
      else idle++;
    }
}

typedef struct { gint64 e; } LiveCond;
static gboolean live_cond (gpointer d) { return v_live () <= ((LiveCond *)d)->e; }
static gint64 live_base_value = -1;
void
v_expect_live (gint64 expect, const char *what)
{
  gint64 start = g_get_monotonic_time ();
  LiveCond c = { expect };
  while (!live_cond (&c))
    {
      gint64 t;
      if (!g_main_context_iteration (NULL, FALSE)) g_usleep (200);
      t = g_get_monotonic_time () - start;
      if (v_iter == 0 && t > 2 * G_USEC_PER_SEC && v_live () <= expect + 2)
        {
          /* an object made on first use and kept for good: not a leak unless
           * the next iteration shows more of them */
          if (live_base_value >= 0) live_base_value = v_live ();
          v_count ("kept_since_first_use", v_live () - expect);
          return;
        }
      if (t > 15 * G_USEC_PER_SEC)
        {
          char *d = v_live_dump ();
          v_fail ("object-leak", "%s: %" G_GINT64_FORMAT " objects live, expected %" G_GINT64_FORMAT " (%s)", what, v_live (), expect, d);
        }
    }
  v_eval (1);
}

/* ================================================================ shared pool */
gint64
v_live_settled (void)
{
  /* unchanged over a while: workers that start up or go to sleep are done */
  gint64 last = -1; int same = 0;
  while (same < 40)
    {
      gint64 n;
      while (g_main_context_iteration (NULL, FALSE)) ;
      n = v_live ();
      if (n == last) same++; else { same = 0; last = n; }
      nsleep (1000 * 1000);
    }
  return last;
}
static DexScheduler *shared_pool;
DexScheduler *
v_pool (void)
{
  if (shared_pool == NULL)
    {
      shared_pool = dex_thread_pool_scheduler_get_default ();
      live_base_value = v_live_settled ();
    }
  return shared_pool;
}
gint64
v_base (void)
{
  if (live_base_value < 0) return v_live ();
  return live_base_value;
}

/* ================================================================ payloads */
#define BOX_MAGIC 0xB0C5B0C5CAFEull
static gint box_live;
static VBox *
v_box_copy (VBox *b)
{
  VBox *n;
  if (b->magic != BOX_MAGIC) v_fail ("payload-use-after-free", "copy of a dead payload id=%d", b->id);
  n = g_new (VBox, 1);
  *n = *b; n->gen++;
  g_atomic_int_inc (&box_live);
  return n;
}
void
v_box_free (VBox *b)
{
  if (b->magic != BOX_MAGIC) v_fail ("payload-double-free", "payload id=%d freed twice", b->id);
  b->magic = 0;
  g_free (b);
  g_atomic_int_add (&box_live, -1);
}
G_DEFINE_BOXED_TYPE (VBox, v_box, v_box_copy, v_box_free)
VBox *
v_box_new (int id)
{
  VBox *n = g_new (VBox, 1);
  n->magic = BOX_MAGIC; n->id = id; n->gen = 0;
  g_atomic_int_inc (&box_live);
  return n;
}
gint v_box_live (void) { return g_atomic_int_get (&box_live); }
int v_box_id_of (const GValue *v)
{
  VBox *b;
  if (v == NULL || !G_VALUE_HOLDS (v, V_TYPE_BOX)) return -1;
  b = g_value_get_boxed (v);
  if (b->magic != BOX_MAGIC) v_fail ("payload-use-after-free", "read of a dead payload id=%d", b->id);
  return b->id;
}

typedef struct { GObject parent; int id; } VObj;
typedef struct { GObjectClass parent; } VObjClass;
G_DEFINE_TYPE (VObj, v_obj, G_TYPE_OBJECT)
static gint obj_live;
static void v_obj_finalize (GObject *o) { g_atomic_int_add (&obj_live, -1); G_OBJECT_CLASS (v_obj_parent_class)->finalize (o); }
static void v_obj_class_init (VObjClass *k) { G_OBJECT_CLASS (k)->finalize = v_obj_finalize; }
static void v_obj_init (VObj *o) { g_atomic_int_inc (&obj_live); }
GObject *v_obj_new (int id) { VObj *o = g_object_new (V_TYPE_OBJ, NULL); o->id = id; return G_OBJECT (o); }
int v_obj_id (gpointer o) { return ((VObj *)o)->id; }
gint v_obj_live (void) { return g_atomic_int_get (&obj_live); }

int v_rnd_usleep (VRng *r, guint max_us) { guint u = v_below (r, max_us + 1); if (u) g_usleep (u); return u; }

/* ================================================================ threads */
typedef struct { guint idx; VRng rng; VThreadFunc func; gpointer data; } ParArg;
static pthread_barrier_t par_barrier;
static int par_done;
static gpointer
par_thread (gpointer p)
{
  ParArg *a = p;
  pthread_barrier_wait (&par_barrier);
  a->func (a->idx, &a->rng, a->data);
  g_atomic_int_inc (&par_done);
  return NULL;
}
static void
par_run (guint n, VThreadFunc func, gpointer data, gboolean ctx, VThreadFunc mainf)
{
  GThread *t[64]; ParArg a[64];
  g_assert (n <= 64);
  pthread_barrier_init (&par_barrier, NULL, n + (mainf != NULL));
  g_atomic_int_set (&par_done, 0);
  for (guint i = 0; i < n; i++)
    {
      a[i].idx = i; a[i].rng.s = v_rand (&v_rng); a[i].func = func; a[i].data = data;
      t[i] = g_thread_new ("v-par", par_thread, &a[i]);
    }
  if (mainf)
    {
      VRng r = { v_rand (&v_rng) };
      pthread_barrier_wait (&par_barrier);
      mainf (n, &r, data);
    }
  if (ctx) v_run_until_count (&par_done, n, "worker threads of the scenario");
  else v_wait_count (&par_done, n, "worker threads of the scenario");
  for (guint i = 0; i < n; i++) g_thread_join (t[i]);
  pthread_barrier_destroy (&par_barrier);
}
void v_par (guint n, VThreadFunc func, gpointer data) { par_run (n, func, data, FALSE, NULL); }
void v_par_ctx (guint n, VThreadFunc func, gpointer data) { par_run (n, func, data, TRUE, NULL); }
void v_par_main (guint n, VThreadFunc func, gpointer data, VThreadFunc mainf) { par_run (n, func, data, TRUE, mainf); }

/* ================================================================ main */
static void
json_str (FILE *f, const char *s)
{
  fputc ('"', f);
  for (; *s; s++)
    if (*s == '"' || *s == '\\') { fputc ('\\', f); fputc (*s, f); }
    else if ((unsigned char)*s < 32) fputc (' ', f);
    else fputc (*s, f);
  fputc ('"', f);
}

static const char *result_path;
int v_cold;

/* objects that class initializers keep for good belong to the baseline */
static void
warm_classes (GType t)
{
  guint n;
  GType *c = g_type_children (t, &n);
  g_type_class_ref (t);
  for (guint i = 0; i < n; i++) warm_classes (c[i]);
  g_free (c);
}

int
v_main (int argc, char **argv, const VScenario *scenarios)
{
  gboolean any = FALSE;

  prctl (PR_SET_PDEATHSIG, SIGKILL);
  for (int i = 1; i < argc; i++)
    {
      if (!strcmp (argv[i], "--seed") && i + 1 < argc) v_opts.seed = g_ascii_strtoull (argv[++i], NULL, 10);
      else if (!strcmp (argv[i], "--iters") && i + 1 < argc) v_opts.iters = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--noise") && i + 1 < argc) v_opts.noise = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--scenario") && i + 1 < argc) v_opts.scenario = argv[++i];
      else if (!strcmp (argv[i], "--out") && i + 1 < argc) result_path = argv[++i];
      else if (!strcmp (argv[i], "--list"))
        {
          for (const VScenario *s = scenarios; s->name; s++) puts (s->name);
          return 0;
        }
      else { fprintf (stderr, "bad argument %s\n", argv[i]); return 2; }
    }
#if defined(__has_feature)
# if __has_feature(thread_sanitizer)
  v_opts.tsan = TRUE;
# endif
#endif
  g_log_set_writer_func (log_writer, NULL, NULL);
  samples = g_ptr_array_new ();
  counters = g_hash_table_new (g_str_hash, g_str_equal);
  live_set = g_hash_table_new (NULL, NULL);
  dex_init ();
  if (!v_cold)
    {
      /* created once and kept: part of the baseline */
      dex_unref (dex_future_new_true ());
      dex_unref (dex_future_new_false ());
      warm_classes (DEX_TYPE_OBJECT);
      /* GLib makes the lock of its variant type table on first use: not in the middle of a race */
      g_variant_unref (g_variant_ref_sink (g_variant_new ("(is)", 1, "v")));
    }
  if (!guard_hit) guard_hit = calloc (1, 1);

  /* how far it is, for who waits for its end */
  if (getenv ("V_PROGRESS"))
    {
      int fd = open (getenv ("V_PROGRESS"), O_RDWR | O_CLOEXEC);
      void *m = fd < 0 ? MAP_FAILED : mmap (NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (fd >= 0) close (fd);
      if (m != MAP_FAILED) progress = m;
    }

  for (const VScenario *s = scenarios; s->name; s++)
    {
      guint n = MAX (1, (guint)((guint64)v_opts.iters * s->weight_pct / 100));
      if (v_opts.scenario && strcmp (v_opts.scenario, s->name)) continue;
      any = TRUE;
      v_scen = s->name;
      uint64_t sh = 0;
      for (const char *c = s->name; *c; c++) sh = v_hash_add (sh, *c);
      for (v_iter = 0; v_iter < n; v_iter++)
        {
          VRng nr = { v_mix (v_opts.seed * 7919 + v_iter) ^ sh };
          v_rng.s = v_mix (v_opts.seed ^ sh) ^ v_mix (v_iter + 1);
          noise_begin_iter (&nr);
          ++*progress;
          s->func ();
          atomic_store (&noise_level, 0);
        }
      v_count (s->name, n);
    }
  if (!any) { fprintf (stderr, "no such scenario\n"); return 2; }

  FILE *f = result_path ? fopen (result_path, "w") : stdout;
  fprintf (f, "{\"evals\":%" G_GUINT64_FORMAT ",\"events\":%" G_GUINT64_FORMAT ",\"edges\":%u,\"edges_total\":%u,\"noise\":%" G_GUINT64_FORMAT ",\"finalized\":%" G_GINT64_FORMAT ",\"sigs\":[",
           n_evals, n_events, guard_hits, n_guards, noise_injected, n_finalized);
  { gboolean first = TRUE; guint out = 0;
    for (guint i = 0; i < sigs_cap && out < 200000; i++) if (sigs[i]) { fprintf (f, "%s\"%" G_GINT64_MODIFIER "x\"", first ? "" : ",", sigs[i]); first = FALSE; out++; } }
  fprintf (f, "],\"edges_hit\":[");
  { gboolean first = TRUE; for (guint i = 1; i <= n_guards; i++) if (guard_hit[i]) { fprintf (f, "%s%u", first ? "" : ",", i); first = FALSE; } }
  fprintf (f, "],\"samples\":[");
  for (guint i = 0; i < samples->len; i++) { if (i) fputc (',', f); json_str (f, samples->pdata[i]); }
  fprintf (f, "],\"counters\":{");
  { GHashTableIter it; gpointer k, v; gboolean first = TRUE;
    g_hash_table_iter_init (&it, counters);
    while (g_hash_table_iter_next (&it, &k, &v)) { fprintf (f, "%s", first ? "" : ","); json_str (f, k); fprintf (f, ":%" G_GINT64_FORMAT, *(gint64 *)v); first = FALSE; } }
  fprintf (f, "}}\n");
  fflush (f);
  if (result_path) fclose (f);
  fflush (NULL);
  if (getenv ("V_LEAKCHECK"))
    {
      extern int __lsan_do_recoverable_leak_check (void) __attribute__((weak));
      extern void __lsan_do_leak_check (void) __attribute__((weak));
      if (__lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check ())
        { fail_out ("lsan-leak", "LeakSanitizer reported leaked memory"); _exit (3); }
    }
  _exit (0);
}
