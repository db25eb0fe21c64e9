/* vrt.h - runtime shared by all monitor drivers */
#pragma once
#include "config.h"
#include <libdex.h>
#include <gio/gio.h>
#include <stdatomic.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>

/* private headers of the code under test */
#include "dex-object-private.h"
#include "dex-future-private.h"

/* ---------------------------------------------------------------- rng */
typedef struct { uint64_t s; } VRng;
static inline uint64_t v_mix (uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t v_rand (VRng *r) { r->s += 0x9e3779b97f4a7c15ull; return v_mix (r->s); }
static inline guint    v_below (VRng *r, guint n) { return n ? (guint)(v_rand (r) % n) : 0; }
static inline gboolean v_chance (VRng *r, guint pct) { return v_below (r, 100) < pct; }

/* ---------------------------------------------------------------- options */
typedef struct {
  guint64     seed;
  guint       iters;      /* iterations of each scenario in this process */
  int         noise;      /* 0 none, 1 light, 2 heavy, 3 focus */
  const char *scenario;   /* NULL: all */
  gboolean    tsan;
} VOpts;
extern VOpts v_opts;
extern VRng  v_rng;         /* main-thread rng of the running iteration */
extern guint v_iter;        /* current iteration */
extern const char *v_scen;  /* current scenario */

typedef void (*VScenarioFunc) (void);
typedef struct { const char *name; VScenarioFunc func; guint weight_pct; /* share of iters, 100 = all */ } VScenario;

/* set before v_main: leave everything the library makes on first use to the scenario */
extern int v_cold;
int  v_main (int argc, char **argv, const VScenario *scenarios);

/* ---------------------------------------------------------------- verdicts */
/* key identifies the kind of violation (stable), fmt the concrete witness */
/* part of a warning that is documented behaviour of what a driver does on purpose */
extern const char *v_allow_log;
void v_fail (const char *key, const char *fmt, ...) G_GNUC_PRINTF (2, 3);
#define v_check(cond, key, ...) do { if (!(cond)) v_fail (key, __VA_ARGS__); } while (0)

/* ---------------------------------------------------------------- observation accounting */
void v_eval  (guint n);                 /* oracle evaluations */
void v_event (guint n);                 /* events the monitor looked at */
void v_sig   (uint64_t hash);           /* signature of the observed execution */
void v_sigf  (const char *fmt, ...) G_GNUC_PRINTF (1, 2);
void v_sample (const char *fmt, ...) G_GNUC_PRINTF (1, 2);
void v_count (const char *name, gint64 n);  /* named counters for the evidence */
static inline uint64_t v_hash_add (uint64_t h, uint64_t v) { return v_mix (h ^ (v + 0x51ed270b9f4aull)); }

/* ---------------------------------------------------------------- live objects */
gint64 v_live (void);                      /* live DexObject instances */
gint64 v_live_type (const char *name);
char  *v_live_dump (void);
gint64 v_finalized_total (void);

/* ---------------------------------------------------------------- noise */
void v_noise_point (void);                 /* explicit point in drivers */
void v_noise_off (void);
void v_noise_on (void);

/* ---------------------------------------------------------------- helpers */
typedef gboolean (*VCond) (gpointer data);
/* iterate the default main context until cond() holds; fails (key "stall:"...) when it does not */
gboolean v_run_until (VCond cond, gpointer data, const char *what);
gboolean v_run_until_settled (DexFuture *f, const char *what);
gboolean v_run_until_count (int *counter, int target, const char *what);
/* the same, blocking without any help: what settles the condition has to wake the main loop */
gboolean v_block_until (VCond cond, gpointer data, const char *what);
gboolean v_block_until_settled (DexFuture *f, const char *what);
gboolean v_block_until_count (int *counter, int target, const char *what);
void     v_drain (void);                   /* iterate until nothing is ready */
gboolean v_wait_count (int *counter, int target, const char *what); /* for non-main threads/main w/o ctx */
/* waits until number of live objects is back to `expect` */
void     v_expect_live (gint64 expect, const char *what);

/* payload with accounting: boxed type whose copies and frees are counted */
typedef struct { guint64 magic; gint id; gint gen; } VBox;
#define V_TYPE_BOX (v_box_get_type ())
GType v_box_get_type (void);
VBox *v_box_new (int id);
void  v_box_free (VBox *b);
gint  v_box_live (void);
int   v_box_id_of (const GValue *v);       /* -1 if not a box */
int   v_rnd_usleep (VRng *r, guint max_us);

/* test GObject with accounting */
#define V_TYPE_OBJ (v_obj_get_type ())
GType    v_obj_get_type (void);
GObject *v_obj_new (int id);
int      v_obj_id (gpointer o);
gint     v_obj_live (void);

/* destroy-notify accounting */
typedef struct { int destroyed; int called; int id; gpointer extra; GThread *thread; } VData;

/* threads */
typedef void (*VThreadFunc) (guint idx, VRng *rng, gpointer data);
/* run n threads through a start barrier; joins them (fails on hang through runner timeout) */
void v_par (guint n, VThreadFunc func, gpointer data);
void v_par_ctx (guint n, VThreadFunc func, gpointer data); /* main thread iterates the default main context meanwhile */
void v_par_main (guint n, VThreadFunc func, gpointer data, VThreadFunc main_func); /* main thread joins in with idx n, then iterates */

/* default thread pool, created once, quiet when first returned */
DexScheduler *v_pool (void);
gint64 v_live_settled (void);
gint64 v_base (void);   /* live objects with the pool idle; v_live() while there is no pool */
