/* C21: asynchronous file I/O against the system calls it stands for */
// WRAP: pread pwrite pread64 pwrite64 read write
#include "vout.h"
#include "dex-scheduler-private.h"
#include "dex-aio-backend-private.h"
#include "dex-posix-aio-backend-private.h"
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>

#define GUARD 64
#define FILL(i) ((guint8) v_mix (i))

/* ---------------------------------------------------------------- faults: what the next system call on a buffer gives */
typedef struct { const void *buf; int err; gssize res; int hits; } Fault;
static Fault faults[64];
static guint nfaults;
static GMutex fault_lock;
static _Atomic guint faults_on;
static gboolean
fault_for (const void *buf, gssize *res)
{
  gboolean r = FALSE;
  int err = 0;
  if (!faults_on) return FALSE;
  g_mutex_lock (&fault_lock);
  for (guint i = 0; i < nfaults; i++)
    if (faults[i].buf == buf) { faults[i].hits++; *res = faults[i].res; err = faults[i].err; r = TRUE; break; }
  g_mutex_unlock (&fault_lock);
  if (r) errno = err;
  return r;
}
ssize_t __real_pread (int fd, void *b, size_t n, off_t o);
ssize_t __wrap_pread (int fd, void *b, size_t n, off_t o) { gssize r; return fault_for (b, &r) ? r : __real_pread (fd, b, n, o); }
ssize_t __real_pwrite (int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite (int fd, const void *b, size_t n, off_t o) { gssize r; return fault_for (b, &r) ? r : __real_pwrite (fd, b, n, o); }
ssize_t __real_pread64 (int fd, void *b, size_t n, off_t o);
ssize_t __wrap_pread64 (int fd, void *b, size_t n, off_t o) { gssize r; return fault_for (b, &r) ? r : __real_pread64 (fd, b, n, o); }
ssize_t __real_pwrite64 (int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite64 (int fd, const void *b, size_t n, off_t o) { gssize r; return fault_for (b, &r) ? r : __real_pwrite64 (fd, b, n, o); }
ssize_t __real_read (int fd, void *b, size_t n);
ssize_t __wrap_read (int fd, void *b, size_t n) { gssize r; return fault_for (b, &r) ? r : __real_read (fd, b, n); }
ssize_t __real_write (int fd, const void *b, size_t n);
ssize_t __wrap_write (int fd, const void *b, size_t n) { gssize r; return fault_for (b, &r) ? r : __real_write (fd, b, n); }

/* ---------------------------------------------------------------- one request and what the system call gives for it */
typedef struct {
  gboolean write; int fd, twin; gsize count, cap; goffset offset;
  guint8 *buf, *ref;              /* with guard bytes on both sides */
  gssize want; int want_err; gboolean known;
  DexFuture *f;
  int told;
} Req;

static gboolean is_uring;
static void
backend_seen (void)
{
  static gboolean seen;
  if (seen) return;
  seen = TRUE;
  is_uring = g_strcmp0 (DEX_OBJECT_TYPE_NAME (dex_aio_backend_get_default ()), "DexUringAioBackend") == 0;
  v_count (is_uring ? "backend_io_uring" : "backend_posix", 1);
}

static void
req_init (Req *r, VRng *rng, gboolean write, int fd, int twin, gsize count, gsize cap, goffset offset)
{
  memset (r, 0, sizeof *r);
  r->write = write; r->fd = fd; r->twin = twin; r->count = count; r->cap = cap; r->offset = offset;
  r->buf = g_malloc (cap + 2 * GUARD); r->ref = g_malloc (cap + 2 * GUARD);
  for (gsize i = 0; i < cap + 2 * GUARD; i++) r->buf[i] = r->ref[i] = FILL (i + (gsize) r->offset * 3);
  if (write) { guint64 k = v_rand (rng); for (gsize i = 0; i < cap; i++) r->buf[GUARD + i] = r->ref[GUARD + i] = (k * (i + 1)) >> 20; }
}
/* the reference, done synchronously on the twin descriptor */
static void
req_reference (Req *r)
{
  gpointer b = r->ref + GUARD;
  errno = 0;
  if (r->write) r->want = r->offset >= 0 ? __real_pwrite (r->twin, b, r->count, r->offset) : __real_write (r->twin, b, r->count);
  else r->want = r->offset >= 0 ? __real_pread (r->twin, b, r->count, r->offset) : __real_read (r->twin, b, r->count);
  r->want_err = r->want < 0 ? errno : 0;
  r->known = TRUE;
}
static DexFuture *
req_told (DexFuture *f, gpointer data)
{
  g_atomic_int_inc (&((Req *) data)->told);
  return dex_ref (f);
}
static void
req_start (Req *r, VRng *rng)
{
  if (r->write) r->f = dex_aio_write (NULL, r->fd, r->buf + GUARD, r->count, r->offset);
  else r->f = dex_aio_read (NULL, r->fd, r->buf + GUARD, r->count, r->offset);
  v_check (r->f != NULL, "aio-null", "no future for a request");
}
/* outcome of the future alone */
static void
req_outcome (Req *r, const char *what)
{
  GError *e = NULL;
  const GValue *v;
  const char *op = r->write ? "write" : "read";
  v_check (!dex_future_is_pending (r->f), "aio-pending", "%s: a request is pending although it was awaited", what);
  v = dex_future_get_value (r->f, &e);
  if (r->want < 0)
    {
      int code = g_io_error_from_errno (r->want_err);
      v_check (v == NULL, "aio-success", "%s: %s of %zu at %" G_GOFFSET_FORMAT " succeeded, the system call fails with %s", what, op, r->count, r->offset, g_strerror (r->want_err));
      v_check (e->domain == G_IO_ERROR && e->code == code, "aio-error-code", "%s: %s failed with %s/%d (%s), the system call with %s, that is %d",
               what, op, g_quark_to_string (e->domain), e->code, e->message, g_strerror (r->want_err), code);
      v_check (strstr (e->message, g_strerror (r->want_err)) != NULL, "aio-error-message", "%s: message '%s' for %s", what, e->message, g_strerror (r->want_err));
    }
  else
    {
      v_check (v != NULL, "aio-failure", "%s: %s of %zu at %" G_GOFFSET_FORMAT " failed with '%s', the system call gives %zd", what, op, r->count, r->offset, e ? e->message : "?", r->want);
      v_check (G_VALUE_HOLDS_INT64 (v), "aio-type", "%s: result of type %s", what, G_VALUE_TYPE_NAME (v));
      v_check (g_value_get_int64 (v) == r->want, "aio-count", "%s: %s of %zu at %" G_GOFFSET_FORMAT " gives %" G_GINT64_FORMAT ", the system call %zd",
               what, op, r->count, r->offset, g_value_get_int64 (v), r->want);
    }
  g_clear_error (&e);
}
static void
req_end (Req *r, const char *what)
{
  gsize bad;
  req_outcome (r, what);
  for (bad = 0; bad < r->cap + 2 * GUARD && r->buf[bad] == r->ref[bad]; bad++) ;
  v_check (bad == r->cap + 2 * GUARD, "aio-buffer", "%s: %s of %zu at %" G_GOFFSET_FORMAT " (gives %zd): byte %d of the buffer is %02x, with the system call %02x",
           what, r->write ? "write" : "read", r->count, r->offset, r->want, (int) bad - GUARD, r->buf[bad], r->ref[bad]);
  v_eval (2); v_event (1);
  dex_clear (&r->f);
  g_free (r->buf); g_free (r->ref);
}

static int
file_new (VRng *rng, gsize size, int *twin)
{
  int fd[2];
  guint8 *p = g_malloc (size + 1);
  guint64 k = v_rand (rng);
  for (gsize i = 0; i < size; i++) p[i] = (k * (i + 3)) >> 17;
  for (int i = 0; i < 2; i++)
    {
      fd[i] = memfd_create ("verif-aio", MFD_CLOEXEC | MFD_ALLOW_SEALING);
      g_assert (fd[i] >= 0);
      g_assert (__real_pwrite (fd[i], p, size, 0) == (gssize) size);
    }
  g_free (p);
  *twin = fd[1];
  return fd[0];
}
static void
file_same (int fd, int twin, const char *what)
{
  off_t a = lseek (fd, 0, SEEK_END), b = lseek (twin, 0, SEEK_END);
  guint8 x[8192], y[8192];
  v_check (a == b, "aio-file-size", "%s: the file is %lld bytes long, %lld with the system calls", what, (long long) a, (long long) b);
  for (off_t o = 0; o < a; o += sizeof x)
    {
      gssize n = __real_pread (fd, x, sizeof x, o), m = __real_pread (twin, y, sizeof y, o);
      g_assert (n == m && n > 0);
      for (gssize i = 0; i < n; i++) v_check (x[i] == y[i], "aio-file-bytes", "%s: byte %lld of the file is %02x, %02x with the system calls", what, (long long) o + i, x[i], y[i]);
    }
  v_eval (1);
}
static gsize
any_count (VRng *rng)
{
  static const gsize edge[] = { 0, 1, 2, 511, 512, 4095, 4096, 4097, 8192, 65535, 65536, 65537 };
  if (v_chance (rng, 40)) return edge[v_below (rng, v_chance (rng, 90) ? 9 : G_N_ELEMENTS (edge))];
  return v_below (rng, v_chance (rng, 90) ? 600 : 20000);
}

/* ---------------------------------------------------------------- waiting in one of many ways */
static DexFuture *told_cb (DexFuture *f, gpointer data) { return dex_ref (f); }
/* what completes elsewhere wakes the main loop for what the main loop attached to it */
static void
block_for (DexFuture *f, const char *what)
{
  DexFuture *g = dex_future_finally (dex_ref (f), told_cb, NULL, NULL);
  v_block_until_settled (g, what);
  dex_unref (g);
}
typedef struct { Req *r; guint n; int how; const char *what; int done; } Batch;
static DexFuture *
batch_fiber (gpointer data)
{
  Batch *b = data;
  for (guint i = 0; i < b->n; i++)
    {
      GError *e = NULL;
      gint64 v = dex_await_int64 (dex_ref (b->r[i].f), &e);
      if (b->r[i].want >= 0) v_check (e == NULL && v == b->r[i].want, "aio-await", "%s: awaiting gives %" G_GINT64_FORMAT " '%s', expected %zd", b->what, v, e ? e->message : "", b->r[i].want);
      else v_check (e != NULL && g_error_matches (e, G_IO_ERROR, g_io_error_from_errno (b->r[i].want_err)), "aio-await", "%s: awaiting gives %" G_GINT64_FORMAT " '%s', expected %s", b->what, v, e ? e->message : "", g_strerror (b->r[i].want_err));
      g_clear_error (&e);
    }
  g_atomic_int_inc (&b->done);
  return dex_future_new_true ();
}
static gboolean
batch_all (gpointer data)
{
  Batch *b = data;
  for (guint i = 0; i < b->n; i++) if (dex_future_get_status (b->r[i].f) == DEX_FUTURE_STATUS_PENDING) return FALSE;
  return TRUE;
}
static void
batch_wait (Req *r, guint n, VRng *rng, const char *what)
{
  Batch b = { r, n, v_below (rng, 5), what };
  DexFuture *told[512] = { 0 };
  guint nt = 0;
  if (v_chance (rng, 50))
    for (guint i = 0; i < n && nt < 512; i++) if (v_chance (rng, 60)) told[nt++] = dex_future_finally (dex_ref (r[i].f), req_told, &r[i], NULL);
  switch (b.how)
    {
    case 0: v_run_until (batch_all, &b, what); break;
    case 1: v_block_until (batch_all, &b, what); break;
    case 2:
      {
        DexFuture *f = dex_scheduler_spawn (NULL, 0, batch_fiber, &b, NULL);
        v_block_until_settled (f, what);
        v_check (b.done == 1, "aio-await", "%s: the fiber waiting for it did not get through", what);
        dex_unref (f);
      }
      break;
    case 3:
      for (guint i = n; i--; ) v_block_until_settled (r[i].f, what);
      break;
    default:
      {
        g_autoptr(GPtrArray) a = g_ptr_array_new ();
        DexFuture *f;
        for (guint i = 0; i < n; i++) g_ptr_array_add (a, r[i].f);
        f = n ? dex_future_all_racev ((DexFuture **) a->pdata, n) : dex_future_new_true ();
        v_block_until_settled (f, what);
        dex_unref (f);
        v_run_until (batch_all, &b, what);
      }
    }
  for (guint i = 0; i < nt; i++) { v_run_until_settled (told[i], what); dex_unref (told[i]); }
  if (nt)
    for (guint i = 0; i < n; i++) v_check (r[i].told <= 1, "aio-twice", "%s: a request completed %d times", what, r[i].told);
}

/* ================================================================ batches on one file */
static void
s_file (void)
{
  gint64 l0;
  int twin, fd;
  gsize size = v_chance (&v_rng, 10) ? 0 : v_chance (&v_rng, 10) ? 300000 : v_below (&v_rng, 30000);
  guint nb = 1 + v_below (&v_rng, 5), total = 0, maxdepth = 0;
  uint64_t sig = 0;
  backend_seen ();
  v_pool (); l0 = v_base ();
  fd = file_new (&v_rng, size, &twin);
  for (guint k = 0; k < nb; k++)
    {
      /* reads of anything, or writes that do not overlap, or both apart from each other */
      guint kind = v_below (&v_rng, 3), n = v_chance (&v_rng, 15) ? 30 + v_below (&v_rng, 100) : v_below (&v_rng, 12), used = 0;
      Req *r = g_new0 (Req, n + 1);
      goffset pos = v_below (&v_rng, 3) ? 0 : v_below (&v_rng, 50000);
      if (v_chance (&v_rng, 5)) pos += 5ll << 30; /* past 4 GiB, a sparse file */
      if (kind == 2) pos = MAX (pos, (goffset) (size + 200000));
      for (guint i = 0; i < n; i++)
        {
          gsize c = any_count (&v_rng);
          gboolean w = kind == 1 || (kind == 2 && v_chance (&v_rng, 50));
          goffset o = w ? pos : (goffset) v_below (&v_rng, size + 20000);
          if (w) pos += c + (v_chance (&v_rng, 30) ? v_below (&v_rng, 5000) : 0);
          else if (kind == 2)
            {
              /* nothing of it past the end, which is moving */
              if (size == 0) continue;
              o = v_below (&v_rng, size); c = MIN (c, size - o);
            }
          else if (v_chance (&v_rng, 5)) o = G_MAXINT64 - v_below (&v_rng, 3) * 100000;
          req_init (&r[used++], &v_rng, w, fd, twin, c, c, o);
        }
      for (guint i = 0; i < used; i++) req_reference (&r[i]);
      for (guint i = 0; i < used; i++)
        {
          req_start (&r[i], &v_rng);
          if (v_chance (&v_rng, 10)) g_main_context_iteration (NULL, FALSE);
          if (v_chance (&v_rng, 10)) v_noise_point ();
        }
      batch_wait (r, used, &v_rng, "requests on one file");
      for (guint i = 0; i < used; i++) { sig = v_hash_add (sig, r[i].want * 2 + r[i].write); req_end (&r[i], "one file"); }
      g_free (r);
      total += used; maxdepth = MAX (maxdepth, used);
      size = lseek (fd, 0, SEEK_END);
      if (size > 1000000) { g_assert (ftruncate (fd, 1000) == 0 && ftruncate (twin, 1000) == 0); size = 1000; }
      else file_same (fd, twin, "one file");
    }
  v_sig (sig);
  v_sample ("%u batches, %u requests, up to %u outstanding, on %s", nb, total, maxdepth, is_uring ? "io_uring" : "threads");
  close (fd); close (twin);
  v_expect_live (l0, "file requests");
}

/* ================================================================ descriptors of every kind, one request at a time */
static void
s_fds (void)
{
  gint64 l0;
  guint n = 5 + v_below (&v_rng, 25);
  uint64_t sig = 0;
  char dir[] = "/tmp/verif-aio-XXXXXX";
  backend_seen ();
  v_pool (); l0 = v_base ();
  signal (SIGPIPE, SIG_IGN);
  for (guint k = 0; k < n; k++)
    {
      int fd[2] = { -1, -1 }, tw[2] = { -1, -1 };      /* the one used, and its other end */
      gboolean w = v_chance (&v_rng, 50);
      gsize c = any_count (&v_rng);
      goffset o = v_below (&v_rng, 2000);
      if (c == 0) c = 1;        /* for nothing at all, io_uring does not ask the file */
      const char *what = "";
      Req r;
      switch (v_below (&v_rng, 15))
        {
        case 0: what = "a bad descriptor"; fd[0] = tw[0] = v_chance (&v_rng, 50) ? -1 : 987654; break;
        case 1: what = "a write-only file"; w = FALSE; /* fall through */
        case 2:
          {
            int a, b = file_new (&v_rng, 3000, &a);
            char p[64];
            gboolean ro = w;
            if (ro) what = "a read-only file";
            g_snprintf (p, sizeof p, "/proc/self/fd/%d", b); fd[0] = open (p, (ro ? O_RDONLY : O_WRONLY) | O_CLOEXEC);
            g_snprintf (p, sizeof p, "/proc/self/fd/%d", a); tw[0] = open (p, (ro ? O_RDONLY : O_WRONLY) | O_CLOEXEC);
            close (a); close (b);
          }
          break;
        case 3: what = "a directory"; w = FALSE; c = MAX (c, 1); fd[0] = open ("/usr", O_RDONLY | O_DIRECTORY | O_CLOEXEC); tw[0] = dup (fd[0]); break;
        case 4: what = "/dev/full"; fd[0] = open ("/dev/full", O_RDWR | O_CLOEXEC); tw[0] = dup (fd[0]); break;
        case 5:
          /* the kernel fills it page by page and may stop after any of them when
           * the thread has task work to do, for system calls as well */
          what = "/dev/zero"; c = MIN (c, 4096);
          fd[0] = open ("/dev/zero", O_RDWR | O_CLOEXEC); tw[0] = dup (fd[0]);
          break;
        case 6: what = "/dev/null"; fd[0] = open ("/dev/null", O_RDWR | O_CLOEXEC); tw[0] = dup (fd[0]); break;
        case 7:
          what = "a sealed file"; w = TRUE;
          fd[0] = file_new (&v_rng, 1500, &tw[0]);
          for (int i = 0; i < 2; i++) fcntl (i ? tw[0] : fd[0], F_ADD_SEALS, F_SEAL_GROW);
          if (v_chance (&v_rng, 50)) for (int i = 0; i < 2; i++) fcntl (i ? tw[0] : fd[0], F_ADD_SEALS, F_SEAL_WRITE);
          break;
        case 8:
          {
            /* at the file position, which moves along */
            what = "the file position"; o = -1;
            fd[0] = file_new (&v_rng, 3000, &tw[0]);
            lseek (fd[0], k * 37, SEEK_SET); lseek (tw[0], k * 37, SEEK_SET);
          }
          break;
        case 9:
          {
            what = "a pipe with data"; w = FALSE; o = -1;
            char b[5000]; gsize m = 1 + v_below (&v_rng, 5000);
            memset (b, 7, sizeof b); b[0] = 1;
            g_assert (pipe2 (fd, O_CLOEXEC) == 0 && pipe2 (tw, O_CLOEXEC) == 0);
            g_assert (__real_write (fd[1], b, m) == (gssize) m && __real_write (tw[1], b, m) == (gssize) m);
            c = MAX (c, 1);
          }
          break;
        case 10:
          what = "a pipe nobody writes to"; w = FALSE; o = -1;
          g_assert (pipe2 (fd, O_CLOEXEC) == 0 && pipe2 (tw, O_CLOEXEC) == 0);
          close (fd[1]); close (tw[1]); fd[1] = tw[1] = -1;
          break;
        case 11:
          what = "a pipe nobody reads"; w = TRUE; o = -1; c = MAX (c, 1);
          g_assert (pipe2 (tw, O_CLOEXEC) == 0); close (tw[0]); tw[0] = tw[1]; tw[1] = -1;
          g_assert (pipe2 (fd, O_CLOEXEC) == 0); close (fd[0]); fd[0] = fd[1]; fd[1] = -1;
          break;
        case 12:
          /* (on io_uring the kernel waits for the data instead) */
          if (is_uring) continue;
          what = "an empty non-blocking pipe"; w = FALSE; o = -1; c = MAX (c, 1);
          g_assert (pipe2 (fd, O_CLOEXEC | O_NONBLOCK) == 0 && pipe2 (tw, O_CLOEXEC | O_NONBLOCK) == 0);
          break;
        case 13:
          what = "a socket"; w = v_chance (&v_rng, 50); o = -1; c = 1 + c % 5000;
          g_assert (socketpair (AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd) == 0 && socketpair (AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, tw) == 0);
          if (!w) { g_assert (__real_write (fd[1], "hello", 5) == 5 && __real_write (tw[1], "hello", 5) == 5); }
          break;
        default:
          {
            what = "a file opened for appending"; w = TRUE;
            int a, b = file_new (&v_rng, 100, &a);
            fcntl (a, F_SETFL, O_APPEND); fcntl (b, F_SETFL, O_APPEND);
            fd[0] = b; tw[0] = a;
            if (v_chance (&v_rng, 50)) o = -1;
          }
        }
      (void) dir;
      req_init (&r, &v_rng, w, fd[0], tw[0], c, c, o);
      req_reference (&r);
      req_start (&r, &v_rng);
      batch_wait (&r, 1, &v_rng, what);
      if (fd[0] >= 0 && fd[0] < 900000 && o == -1)
        {
          off_t a = lseek (fd[0], 0, SEEK_CUR), b = lseek (tw[0], 0, SEEK_CUR);
          v_check (a == b, "aio-position", "%s: file position %lld, %lld with the system call", what, (long long) a, (long long) b);
        }
      sig = v_hash_add (sig, r.want < 0 ? -r.want_err : r.want);
      req_end (&r, what);
      for (int i = 0; i < 2; i++) { if (fd[i] >= 0 && fd[i] < 900000) close (fd[i]); if (tw[i] >= 0 && tw[i] < 900000) close (tw[i]); }
    }
  v_sig (sig);
  v_sample ("%u requests on descriptors of many kinds", n);
  v_expect_live (l0, "descriptors");
}

/* sizes past what one system call transfers */
static void
s_huge (void)
{
  static const gsize sizes[] = { 0x7fffefff, 0x7ffff000, 0x7ffff001, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x17ffff000 };
  gsize c = sizes[(v_opts.seed + v_iter) % G_N_ELEMENTS (sizes)];
  gsize span = 0x180000000;
  int fd, twin;
  Req r;
  guint8 *p;
  backend_seen ();
  v_pool ();
  p = mmap (NULL, span, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { v_count ("huge_skipped", 1); return; }
  /* written to /dev/null, where nothing is copied */
  fd = open ("/dev/null", O_RDWR | O_CLOEXEC);
  memset (&r, 0, sizeof r);
  r.write = TRUE; r.fd = fd; r.count = c; r.offset = 0;
  r.want = __real_pwrite (fd, p, c, 0);
  r.f = dex_aio_write (NULL, fd, p, c, 0);
  v_block_until_settled (r.f, "a huge write");
  req_outcome (&r, "a huge write");
  dex_clear (&r.f);
  close (fd);
  munmap (p, span);
  /* and asked of a small file */
  fd = file_new (&v_rng, 5000, &twin);
  req_init (&r, &v_rng, FALSE, fd, twin, c, 6000, v_below (&v_rng, 5000));
  r.want = __real_pread (twin, r.ref + GUARD, 6000, r.offset);
  r.f = dex_aio_read (NULL, fd, r.buf + GUARD, c, r.offset);
  v_block_until_settled (r.f, "a huge read");
  req_end (&r, "a huge read");
  close (fd); close (twin);
  v_sigf ("%zx", c);
  v_eval (2); v_event (2);
}

/* ================================================================ many at once, from everywhere */
typedef struct { int fd, twin; guint per, idx, rounds, kind; gsize base, slot; VRng rng; int *done; int bad; guint depth; } Dp;
static DexFuture *
deep_fiber (gpointer data)
{
  Dp *d = data;
  Req *r = g_new0 (Req, d->per + 1);
  for (guint k = 0; k < d->rounds; k++)
    {
      guint n = d->per;
      for (guint i = 0; i < n; i++)
        {
          gsize c = 1 + v_below (&d->rng, d->slot);
          req_init (&r[i], &d->rng, (k + d->kind) & 1 ? FALSE : TRUE, d->fd, d->twin, c, c, d->base + i * d->slot + v_below (&d->rng, d->slot - c + 1));
          if (r[i].write || k == 0 || (d->kind & 1 && k < 2)) ;
          req_reference (&r[i]);
        }
      for (guint i = 0; i < n; i++) { req_start (&r[i], &d->rng); if (v_chance (&d->rng, 3)) v_noise_point (); }
      /* awaited in any order, alone or all together */
      if (v_chance (&d->rng, 30))
        {
          g_autoptr(GPtrArray) a = g_ptr_array_new ();
          for (guint i = 0; i < n; i++) g_ptr_array_add (a, r[i].f);
          dex_await (dex_future_allv ((DexFuture **) a->pdata, n), NULL);
        }
      for (guint i = 0; i < n; i++)
        {
          GError *e = NULL;
          guint j = d->kind & 2 ? n - 1 - i : i;
          gint64 v = dex_await_int64 (dex_ref (r[j].f), &e);
          v_check (e == NULL, "aio-failure", "request %u of a fiber failed: %s", j, e ? e->message : "");
          v_check (v == r[j].want, "aio-count", "request %u of a fiber gave %" G_GINT64_FORMAT ", expected %zd", j, v, r[j].want);
        }
      for (guint i = 0; i < n; i++) req_end (&r[i], "deep");
    }
  g_free (r);
  g_atomic_int_inc (d->done);
  return dex_future_new_true ();
}
static void
s_deep (void)
{
  gint64 l0;
  int fd, twin, done = 0;
  guint nf = 1 + v_below (&v_rng, 24);
  Dp *d = g_new0 (Dp, nf);
  DexFuture **f = g_new0 (DexFuture *, nf), *all;
  gsize slot = 1 + v_below (&v_rng, 400), per = v_chance (&v_rng, 20) ? 40 + v_below (&v_rng, 300) : 1 + v_below (&v_rng, 20), base = 0;
  guint pool_pct = v_below (&v_rng, 3) * 50;
  backend_seen ();
  v_pool (); l0 = v_base ();
  fd = file_new (&v_rng, nf * per * slot, &twin);
  for (guint i = 0; i < nf; i++)
    {
      d[i] = (Dp) { fd, twin, per, i, 1 + v_below (&v_rng, 4), v_below (&v_rng, 4), base, slot, { v_rand (&v_rng) }, &done };
      base += per * slot;
      f[i] = dex_scheduler_spawn (v_chance (&v_rng, pool_pct) ? v_pool () : NULL, 0, deep_fiber, &d[i], NULL);
    }
  all = dex_future_allv (f, nf);
  if (v_chance (&v_rng, 50)) block_for (all, "many requests");
  else v_run_until_settled (all, "many requests");
  v_check (done == (int) nf, "aio-lost", "%d of %u fibers got through", done, nf);
  file_same (fd, twin, "many requests");
  v_sigf ("%u %zu %zu %u", nf, per, slot, pool_pct);
  v_count ("requests", nf * per);
  v_sample ("%u fibers with %zu requests outstanding each, %u%% on the pool", nf, per, pool_pct);
  dex_unref (all);
  for (guint i = 0; i < nf; i++) dex_unref (f[i]);
  g_free (f); g_free (d);
  close (fd); close (twin);
  v_expect_live (l0, "many requests");
}

/* the same context used by several threads, while its loop sleeps or works */
typedef struct { int fd, twin, per; gsize slot; DexAioContext *ctx; int served; Req *r[8]; } Cx;
static DexFuture *cx_told (DexFuture *f, gpointer data) { Req *r = data; g_atomic_int_inc (&r->told); return dex_ref (f); }
static void
cx_thread (guint idx, VRng *rng, gpointer data)
{
  Cx *c = data;
  Req *r = c->r[idx] = g_new0 (Req, c->per);
  for (int i = 0; i < c->per; i++)
    {
      goffset o = ((goffset) idx * c->per + i) * c->slot;
      req_init (&r[i], rng, v_chance (rng, 50), c->fd, c->twin, c->slot, c->slot, o);
      req_reference (&r[i]);
      if (v_chance (rng, 20)) v_rnd_usleep (rng, 300);
      if (r[i].write) r[i].f = dex_aio_write (c->ctx, c->fd, r[i].buf + GUARD, r[i].count, o);
      else r[i].f = dex_aio_read (c->ctx, c->fd, r[i].buf + GUARD, r[i].count, o);
      if (v_chance (rng, 30)) v_noise_point ();
      if (v_chance (rng, 20))
        {
          /* one at a time, with the loop asleep */
          gint64 t0 = g_get_monotonic_time ();
          while (dex_future_is_pending (r[i].f) && g_get_monotonic_time () - t0 < 20 * G_USEC_PER_SEC) g_usleep (20);
          v_check (!dex_future_is_pending (r[i].f), "aio-stall", "a request given to the context of a sleeping loop does not complete");
        }
    }
  g_atomic_int_inc (&c->served);
  g_main_context_wakeup (NULL);
}
typedef struct { Cx *c; guint n; } CxDone;
static gboolean
cx_done (gpointer data)
{
  CxDone *d = data;
  if (g_atomic_int_get (&d->c->served) != (int) d->n) return FALSE;
  for (guint t = 0; t < d->n; t++) for (int i = 0; i < d->c->per; i++) if (dex_future_is_pending (d->c->r[t][i].f)) return FALSE;
  return TRUE;
}
static void cx_main (guint idx, VRng *rng, gpointer data) { CxDone d = { data, idx }; v_block_until (cx_done, &d, "requests by other threads"); }
static void
s_cross (void)
{
  gint64 l0;
  Cx c = { 0 };
  guint n = 1 + v_below (&v_rng, 4);
  backend_seen ();
  v_pool (); l0 = v_base ();
  c.per = 1 + v_below (&v_rng, v_chance (&v_rng, 20) ? 150 : 20); c.slot = 1 + v_below (&v_rng, 100);
  c.fd = file_new (&v_rng, n * c.per * c.slot, &c.twin);
  c.ctx = dex_scheduler_get_aio_context (dex_scheduler_get_default ());
  v_par_main (n, cx_thread, &c, cx_main);
  for (guint t = 0; t < n; t++) { for (int i = 0; i < c.per; i++) req_end (&c.r[t][i], "other threads"); g_free (c.r[t]); }
  file_same (c.fd, c.twin, "other threads");
  v_sigf ("%u %d %zu", n, c.per, c.slot);
  v_sample ("%u threads, %d requests each, on the context of the main loop", n, c.per);
  close (c.fd); close (c.twin);
  v_expect_live (l0, "other threads");
}

/* ================================================================ requests that wait, and requests nobody waits for any more */
typedef struct { int wr[16]; guint n; guint8 byte[16]; VRng rng; int order[16]; } Bl;
static void
bl_thread (guint idx, VRng *rng, gpointer data)
{
  Bl *b = data;
  for (guint i = 0; i < b->n; i++)
    {
      v_rnd_usleep (rng, 500);
      if (v_chance (rng, 30)) v_noise_point ();
      g_assert (__real_write (b->wr[b->order[i]], &b->byte[b->order[i]], 1) == 1);
    }
}
static DexFuture *
bl_fiber (gpointer data)
{
  Req *r = data;
  gint64 v = dex_await_int64 (dex_ref (r->f), NULL);
  v_check (v == 1 && r->buf[GUARD] == (guint8) r->cap, "aio-blocked", "a read that had to wait gave %" G_GINT64_FORMAT " and byte %d", v, r->buf[GUARD]);
  return dex_future_new_true ();
}
typedef struct { Req *r; } BlStart;
static DexFuture *
bl_pool_fiber (gpointer data)
{
  Req *r = data;
  r->f = dex_aio_read (NULL, r->fd, r->buf + GUARD, 1, -1);
  g_atomic_int_inc (&r->told);
  return bl_fiber (r);
}
static void
s_blocked (void)
{
  gint64 l0;
  Bl b = { 0 };
  Req r[16];
  DexFuture *f[16];
  gboolean dropped[16];
  int rd[16], fd, twin;
  guint kept = 0;
  backend_seen ();
  v_pool (); l0 = v_base ();
  /* the thread backend has eight threads: leave some for others */
  b.n = 1 + v_below (&v_rng, is_uring ? 16 : 6);
  for (guint i = 0; i < b.n; i++)
    {
      int p[2];
      g_assert (pipe2 (p, O_CLOEXEC) == 0);
      rd[i] = p[0]; b.wr[i] = p[1]; b.byte[i] = 1 + v_below (&v_rng, 250); b.order[i] = i;
    }
  for (guint i = b.n; i > 1; i--) { guint j = v_below (&v_rng, i); int t = b.order[j]; b.order[j] = b.order[i - 1]; b.order[i - 1] = t; }
  for (guint i = 0; i < b.n; i++)
    {
      memset (&r[i], 0, sizeof r[i]);
      r[i].fd = rd[i]; r[i].buf = g_malloc0 (2 * GUARD + 1); r[i].cap = b.byte[i];
      dropped[i] = FALSE; f[i] = NULL;
      if (v_chance (&v_rng, 30)) { f[i] = dex_scheduler_spawn (v_pool (), 0, bl_pool_fiber, &r[i], NULL); kept++; continue; }
      r[i].f = dex_aio_read (NULL, rd[i], r[i].buf + GUARD, 1, -1);
      switch (v_below (&v_rng, 4))
        {
        case 0: dex_clear (&r[i].f); dropped[i] = TRUE; break;                                                    /* dropped */
        case 1: dex_unref (dex_future_finally (g_steal_pointer (&r[i].f), cx_told, &r[i], NULL)); dropped[i] = TRUE; break; /* discarded */
        default: f[i] = dex_scheduler_spawn (NULL, 0, bl_fiber, &r[i], NULL); kept++; break;
        }
    }
  /* none of it holds up another request */
  fd = file_new (&v_rng, 1000, &twin);
  for (guint k = v_below (&v_rng, 4); k; k--)
    {
      Req q;
      req_init (&q, &v_rng, v_chance (&v_rng, 50), fd, twin, 200, 200, v_below (&v_rng, 900));
      req_reference (&q); req_start (&q, &v_rng);
      v_block_until_settled (q.f, "a request next to others that wait");
      req_end (&q, "next to others that wait");
    }
  for (guint i = 0; i < b.n; i++) if (f[i]) v_check (dex_future_is_pending (f[i]), "aio-early", "a read completed before there was anything to read");
  v_par_ctx (1, bl_thread, &b);
  for (guint i = 0; i < b.n; i++)
    if (f[i]) { block_for (f[i], "reads that had to wait"); dex_unref (f[i]); }
  for (guint i = 0; i < b.n; i++) dex_clear (&r[i].f);
  /* what was dropped still uses its buffer until it is through */
  v_expect_live (l0, "reads that had to wait");
  for (guint i = 0; i < b.n; i++)
    {
      v_check (r[i].told <= 1, "aio-twice", "told %d times", r[i].told);
      for (guint k = 0; k < 2 * GUARD + 1; k++) v_check (k == GUARD || r[i].buf[k] == 0, "aio-buffer", "a byte next to the buffer was written");
      if (!dropped[i]) v_check (r[i].buf[GUARD] == b.byte[i], "aio-buffer", "byte %d read, %d written", r[i].buf[GUARD], b.byte[i]);
      close (rd[i]); close (b.wr[i]); g_free (r[i].buf);
    }
  close (fd); close (twin);
  v_eval (b.n); v_event (b.n);
  v_sigf ("%u %u %d", b.n, kept, b.order[0]);
  v_sample ("%u reads of empty pipes, %u awaited", b.n, kept);
}

/* ================================================================ failing system calls (thread backend) */
static void
s_faults (void)
{
  static const int errs[] = { EIO, ENOSPC, EINTR, EAGAIN, EDQUOT, EPERM, EACCES, ENOMEM, EFBIG, EROFS, ETIMEDOUT, ECONNRESET, EPIPE, EBUSY, EINVAL, EISDIR, ENODEV, EBADF, EOPNOTSUPP, 133 };
  gint64 l0;
  guint n = 1 + v_below (&v_rng, 40);
  Req r[40];
  int fd, twin;
  uint64_t sig = 0;
  DexAioBackend *be;
  GSource *src;
  backend_seen ();
  v_pool (); l0 = v_base ();
  /* whatever the default is, the thread backend is there too */
  be = is_uring ? dex_posix_aio_backend_new () : NULL;
  src = be ? (GSource *) dex_aio_backend_create_context (be) : NULL;
  if (src) g_source_attach (src, NULL);
  fd = file_new (&v_rng, 40 * 100, &twin);
  nfaults = 0;
  for (guint i = 0; i < n; i++)
    {
      req_init (&r[i], &v_rng, v_chance (&v_rng, 50), fd, twin, 100, 100, i * 100);
      if (v_chance (&v_rng, 60))
        {
          Fault *x = &faults[nfaults++];
          *x = (Fault) { r[i].buf + GUARD, errs[v_below (&v_rng, G_N_ELEMENTS (errs))], -1, 0 };
          if (v_chance (&v_rng, 20)) { x->err = 0; x->res = v_below (&v_rng, 100); } /* transferred less than asked */
          r[i].want = x->res; r[i].want_err = x->err;
        }
      else req_reference (&r[i]);
      sig = v_hash_add (sig, r[i].want * 1000 + r[i].want_err);
    }
  faults_on = 1;
  for (guint i = 0; i < n; i++)
    {
      if (r[i].write) r[i].f = dex_aio_write ((DexAioContext *) src, fd, r[i].buf + GUARD, r[i].count, r[i].offset);
      else r[i].f = dex_aio_read ((DexAioContext *) src, fd, r[i].buf + GUARD, r[i].count, r[i].offset);
    }
  batch_wait (r, n, &v_rng, "failing requests");
  faults_on = 0;
  for (guint i = 0; i < nfaults; i++) v_check (faults[i].hits == 1, "aio-retried", "a request made %d system calls", faults[i].hits);
  for (guint i = 0; i < n; i++) req_end (&r[i], "failing requests");
  file_same (fd, twin, "failing requests");
  close (fd); close (twin);
  if (src)
    {
      /* the threads may still hold the last of them */
      v_run_until_count (&(int) { 1 }, 1, "");
      g_source_destroy (src); g_source_unref (src);
      dex_unref (be);
    }
  v_sig (sig);
  v_sample ("%u requests, %u of them failing or short", n, nfaults);
  v_expect_live (l0, "failing requests");
}

static const VScenario scenarios[] = {
  { "file", s_file, 100 }, { "fds", s_fds, 60 }, { "deep", s_deep, 40 }, { "cross", s_cross, 60 }, { "blocked", s_blocked, 60 }, { "faults", s_faults, 60 }, { "huge", s_huge, 4 },
  { NULL }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
