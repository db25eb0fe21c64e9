/* Lifetime of reference-counted objects and weak references */
#include "vrt.h"
#include <gobject/gvaluecollector.h>

typedef struct { DexObject parent; _Atomic int alive; int id; _Atomic int *fin; } VT, VTestObj;
typedef struct { DexObjectClass parent; } VTClass, VTestObjClass;
GType vt_get_type (void);
#define VT_TYPE (vt_get_type ())
DEX_DEFINE_FINAL_TYPE (VTestObj, vt, DEX_TYPE_OBJECT)
#define ALIVE 0x5a5a1234
static _Atomic int n_final;
static void
vt_finalize (DexObject *o)
{
  VT *t = (VT *)o;
  if (atomic_exchange (&t->alive, 0) != ALIVE) v_fail ("finalize-twice", "finalizer of object %d entered twice", t->id);
  atomic_fetch_add (&n_final, 1);
  if (t->fin) atomic_fetch_add (t->fin, 1);
  DEX_OBJECT_CLASS (vt_parent_class)->finalize (o);
}
static void vt_class_init (VTClass *k) { DEX_OBJECT_CLASS (k)->finalize = vt_finalize; }
static void vt_init (VT *t) { atomic_store (&t->alive, ALIVE); }
static VT *vt_new (int id) { VT *t = (VT *)g_type_create_instance (VT_TYPE); t->id = id; return t; }
#define CHECK_ALIVE(t, w) do { if (atomic_load (&((VT *)(t))->alive) != ALIVE) v_fail ("use-after-finalize", "%s: object reached after it was finalized", w); } while (0)

/* ---------------------------------------------------------------- sequential model */
static void
s_model (void)
{
  enum { NO = 5, NW = 9 };
  VT *objs[NO]; int refs[NO]; _Atomic int fin[NO];
  DexWeakRef wr[NW]; int tgt[NW];
  gint64 l0 = v_live ();
  uint64_t sig = 0;
  guint ops = 40 + v_below (&v_rng, 60);

  for (int i = 0; i < NO; i++) { objs[i] = vt_new (i); refs[i] = 1; atomic_init (&fin[i], 0); objs[i]->fin = &fin[i]; }
  for (int i = 0; i < NW; i++)
    {
      int o = (int)v_below (&v_rng, NO + 1) - 1;
      dex_weak_ref_init (&wr[i], o < 0 ? NULL : objs[o]); tgt[i] = o;
    }
  for (guint n = 0; n < ops; n++)
    {
      int o = v_below (&v_rng, NO), w = v_below (&v_rng, NW);
      switch (v_below (&v_rng, 6))
        {
        case 0: if (refs[o]) { v_check (dex_ref (objs[o]) == (gpointer)objs[o], "ref-identity", "dex_ref returned another object"); refs[o]++; } sig = v_hash_add (sig, o); break;
        case 1: case 2: if (refs[o]) { refs[o]--; dex_unref (objs[o]); sig = v_hash_add (sig, 100 + o + 10 * (refs[o] == 0)); } break;
        case 3:
          {
            VT *g = dex_weak_ref_get (&wr[w]);
            gboolean live = tgt[w] >= 0 && refs[tgt[w]] > 0;
            v_check ((g != NULL) == live, "weak-get-wrong", "weak ref to %s object returned %p", live ? "a live" : "a dead/no", g);
            if (g) { v_check (g == objs[tgt[w]], "weak-get-other", "weak ref returned a different object"); CHECK_ALIVE (g, "model"); refs[tgt[w]]++; }
            sig = v_hash_add (sig, 200 + live);
            v_eval (1);
          }
          break;
        case 4:
          {
            int t = (int)v_below (&v_rng, NO + 1) - 1;
            if (t >= 0 && refs[t] == 0) t = -1;
            dex_weak_ref_set (&wr[w], t < 0 ? NULL : objs[t]); tgt[w] = t; sig = v_hash_add (sig, 300 + t);
          }
          break;
        case 5:
          {
            int t = (int)v_below (&v_rng, NO + 1) - 1;
            if (t >= 0 && refs[t] == 0) t = -1;
            dex_weak_ref_clear (&wr[w]); dex_weak_ref_init (&wr[w], t < 0 ? NULL : objs[t]); tgt[w] = t; sig = v_hash_add (sig, 400 + t);
          }
          break;
        }
      for (int i = 0; i < NO; i++)
        v_check (atomic_load (&fin[i]) == (refs[i] == 0), "finalize-timing", "object %d: %d references but finalized=%d", i, refs[i], atomic_load (&fin[i]));
      v_eval (NO); v_event (1);
    }
  for (int i = 0; i < NW; i++) if (v_chance (&v_rng, 50)) { dex_weak_ref_clear (&wr[i]); dex_weak_ref_init (&wr[i], NULL); }
  for (int i = 0; i < NO; i++) while (refs[i]) { refs[i]--; dex_unref (objs[i]); }
  for (int i = 0; i < NO; i++) v_check (atomic_load (&fin[i]) == 1, "finalize-timing", "object %d finalized %d times at the end", i, fin[i]);
  for (int i = 0; i < NW; i++) { v_check (dex_weak_ref_get (&wr[i]) == NULL, "weak-get-wrong", "weak ref still resolves after finalize"); dex_weak_ref_clear (&wr[i]); }
  v_check (v_live () == l0, "object-leak", "live %ld expected %ld", (long)v_live (), (long)l0);
  v_sig (sig);
  v_sample ("%u operations on %d objects / %d weak refs, every finalize at the predicted step", ops, NO, NW);
}

/* ---------------------------------------------------------------- concurrent gauntlet */
typedef struct { VT *obj; DexWeakRef wr[16]; _Atomic int got[16]; int mode; guint n; int rounds; _Atomic int dead_seen; } Gaunt;

static void
gaunt_thread (guint idx, VRng *rng, gpointer data)
{
  Gaunt *g = data;
  if (idx == 0)
    {
      /* owner: drops the creation reference at a random point */
      for (guint i = v_below (rng, 40); i; i--) { v_noise_point (); __asm__ volatile ("" ::: "memory"); }
      if (v_chance (rng, 30)) g_thread_yield ();
      CHECK_ALIVE (g->obj, "owner");
      dex_unref (g->obj);
      return;
    }
  for (int r = 0; r < g->rounds; r++)
    {
      VT *t = dex_weak_ref_get (&g->wr[idx]);
      if (t == NULL) { atomic_fetch_add (&g->dead_seen, 1); break; }
      CHECK_ALIVE (t, "weak get");
      atomic_fetch_add (&g->got[idx], 1);
      if (v_chance (rng, 40)) { dex_ref (t); v_noise_point (); CHECK_ALIVE (t, "ref"); dex_unref (t); }
      CHECK_ALIVE (t, "before unref");
      if (g->mode == 1 && v_chance (rng, 30))
        { /* detach and re-attach while we hold a full reference */
          dex_weak_ref_set (&g->wr[idx], NULL);
          v_noise_point ();
          dex_weak_ref_set (&g->wr[idx], t);
        }
      if (g->mode == 2 && r > 2 && v_chance (rng, 30))
        {
          dex_weak_ref_set (&g->wr[idx], NULL);
          dex_unref (t);
          break;
        }
      dex_unref (t);
    }
}

static void
gauntlet (int mode)
{
  Gaunt g = { 0 };
  gint64 l0 = v_live (), f0 = atomic_load (&n_final);
  _Atomic int fin = 0;
  uint64_t sig = mode;
  guint got = 0;
  g.obj = vt_new (1); g.obj->fin = &fin; g.mode = mode; g.n = 2 + v_below (&v_rng, 5); g.rounds = 20 + v_below (&v_rng, 60);
  for (guint i = 1; i < g.n; i++) dex_weak_ref_init (&g.wr[i], g.obj);
  v_par (g.n, gaunt_thread, &g);
  v_check (atomic_load (&fin) == 1, "finalize-lost", "object finalized %d times after all references were dropped (%d weak getters, mode %d)", fin, g.n - 1, mode);
  for (guint i = 1; i < g.n; i++)
    {
      v_check (dex_weak_ref_get (&g.wr[i]) == NULL, "weak-get-wrong", "weak ref resolves after finalize");
      dex_weak_ref_clear (&g.wr[i]);
      sig = v_hash_add (sig, g.got[i]); got += g.got[i];
    }
  v_check (v_live () == l0 && atomic_load (&n_final) == f0 + 1, "object-leak", "live %ld expected %ld", (long)v_live (), (long)l0);
  v_eval (2 + g.n); v_event (got);
  v_sig (sig);
  v_count ("weak_gets", got); v_count ("observed_dead", g.dead_seen);
  v_sample ("%u threads, %u successful weak gets racing the last unref, finalized once", g.n, got);
}
static void s_gauntlet (void) { gauntlet (0); }
static void s_gauntlet_set (void) { gauntlet (1); }
static void s_gauntlet_detach (void) { gauntlet (2); }

/* two threads each hold one reference and drop it at the same time, weak getters around */
typedef struct { VT *obj[8]; DexWeakRef wr[8]; guint n; _Atomic int got; } Pair;
static void
pair_thread (guint idx, VRng *rng, gpointer data)
{
  Pair *p = data;
  for (guint i = 0; i < p->n; i++)
    {
      if (idx < 2) { v_noise_point (); dex_unref (p->obj[i]); }
      else { VT *t = dex_weak_ref_get (&p->wr[i]); if (t) { CHECK_ALIVE (t, "pair"); atomic_fetch_add (&p->got, 1); dex_unref (t); } }
    }
}
static void
s_pair (void)
{
  Pair p = { .n = 8 };
  gint64 f0 = atomic_load (&n_final), l0 = v_live ();
  for (guint i = 0; i < p.n; i++) { p.obj[i] = vt_new (i); dex_ref (p.obj[i]); dex_weak_ref_init (&p.wr[i], p.obj[i]); }
  v_par (3, pair_thread, &p);
  v_check (atomic_load (&n_final) - f0 == p.n, "finalize-lost", "%d of %u objects finalized", (int)(atomic_load (&n_final) - f0), p.n);
  v_check (v_live () == l0, "object-leak", "objects leaked");
  for (guint i = 0; i < p.n; i++) dex_weak_ref_clear (&p.wr[i]);
  v_eval (p.n); v_event (p.got + 2 * p.n); v_sigf ("pair %d", p.got); 
}

/* completion of a future notifying (through a weak reference) a continuation that is being released */
typedef struct { DexPromise *p[8]; DexFuture *b[8]; guint n; int ran[8]; int destroyed[8]; } CvR;
static DexFuture *cvr_cb (DexFuture *f, gpointer d) { g_atomic_int_inc ((int *)d); return NULL; }
static void
cvr_thread (guint idx, VRng *rng, gpointer data)
{
  CvR *c = data;
  for (guint i = 0; i < c->n; i++)
    {
      v_noise_point ();
      if (idx == 0) dex_promise_resolve_int (c->p[i], i);
      else dex_unref (c->b[i]);
    }
}
static void
s_complete_vs_release (void)
{
  CvR c = { .n = 8 };
  gint64 l0 = v_live ();
  int ran = 0;
  for (guint i = 0; i < c.n; i++)
    {
      c.p[i] = dex_promise_new ();
      c.b[i] = dex_future_then (dex_ref (c.p[i]), cvr_cb, &c.ran[i], NULL);
      if (v_chance (&v_rng, 50)) c.b[i] = dex_future_all (c.b[i], dex_ref (c.p[i]), NULL);
    }
  v_par (2, cvr_thread, &c);
  v_drain ();
  for (guint i = 0; i < c.n; i++) { v_check (c.ran[i] <= 1, "callback-twice", "callback ran %d times", c.ran[i]); ran += c.ran[i]; dex_unref (c.p[i]); }
  v_expect_live (l0, "completion racing release of the continuation");
  v_eval (c.n); v_event (2 * c.n); v_sigf ("cvr %d", ran);
}

/* ---------------------------------------------------------------- objects carried by GValues
 * A program over objects, values and futures holding values.  own[o] is the number of
 * references the program holds itself; every value, future and borrowed copy that
 * names o adds one.  The object must be finalized in the step that takes the sum to 0
 * and in no other. */
static char *
gv_collect (GValue *v, GType t, DexObject *o, guint flags)
{
  GTypeValueTable *vt = g_type_value_table_peek (t);
  GTypeCValue cv[8];
  memset (cv, 0, sizeof cv);
  memset (v, 0, sizeof *v); v->g_type = t;
  cv[0].v_pointer = o;
  return vt->collect_value (v, 1, cv, flags);
}
static void gv_vset (GValue *v, GType t, char **err, ...) { va_list ap; (void) t; va_start (ap, err); G_VALUE_COLLECT (v, ap, 0, err); va_end (ap); }
static void gv_vget (const GValue *v, guint flags, char **err, ...) { va_list ap; va_start (ap, err); G_VALUE_LCOPY (v, ap, flags, err); va_end (ap); }
static void
s_gvalue (void)
{
  enum { NO = 5, NV = 7, NF = 4 };
  VT *objs[NO]; int own[NO]; _Atomic int fin[NO];
  GValue val[NV]; int has[NV];               /* -2 not initialized, -1 none */
  DexFuture *fut[NF]; int fhas[NF];
  gint64 l0 = v_live ();
  uint64_t sig = 31;
  guint ops = 40 + v_below (&v_rng, 80);
  GType types[2] = { DEX_TYPE_OBJECT, VT_TYPE };

  memset (val, 0, sizeof val);
  for (int i = 0; i < NO; i++) { objs[i] = vt_new (i); own[i] = 1; atomic_init (&fin[i], 0); objs[i]->fin = &fin[i]; }
  for (int i = 0; i < NV; i++) has[i] = -2;
  for (int i = 0; i < NF; i++) { fut[i] = NULL; fhas[i] = -1; }
#define SUM(o) ({ int n_ = own[o]; for (int q_ = 0; q_ < NV; q_++) n_ += has[q_] == (o); for (int q_ = 0; q_ < NF; q_++) n_ += fut[q_] && fhas[q_] == (o); n_; })
#define PTR(o) ((o) < 0 ? NULL : (DexObject *) objs[o])
  for (guint n = 0; n < ops; n++)
    {
      int o = (int) v_below (&v_rng, NO + 1) - 1, i = v_below (&v_rng, NV), j = v_below (&v_rng, NV), f = v_below (&v_rng, NF);
      int op = v_below (&v_rng, 14), before[NO];
      for (int q = 0; q < NO; q++) before[q] = SUM (q);
      if (o >= 0 && before[o] == 0) o = -1;
      switch (op)
        {
        case 0: case 1:
          if (has[i] == -2) { g_value_init (&val[i], types[v_below (&v_rng, 2)]); has[i] = -1; }
          break;
        case 2:
          if (has[i] != -2) { g_value_unset (&val[i]); memset (&val[i], 0, sizeof val[i]); has[i] = -2; }
          break;
        case 3:
          if (has[i] != -2) { g_value_reset (&val[i]); has[i] = -1; }
          break;
        case 4: case 5:
          if (has[i] != -2)
            { /* often the very object it already holds, possibly with the value's as only reference */
              if (has[i] >= 0 && v_chance (&v_rng, 30)) o = has[i];
              dex_value_set_object (&val[i], PTR (o)); has[i] = o;
            }
          break;
        case 6:
          if (has[i] != -2 && (o < 0 || own[o] > 0)) { if (o >= 0) own[o]--; dex_value_take_object (&val[i], PTR (o)); has[i] = o; }
          break;
        case 7:
          if (has[i] != -2 && has[j] != -2 && (G_VALUE_TYPE (&val[i]) == G_VALUE_TYPE (&val[j]) || G_VALUE_TYPE (&val[j]) == DEX_TYPE_OBJECT) && i != j)
            { g_value_copy (&val[i], &val[j]); has[j] = has[i]; }
          break;
        case 8:
          { /* by collection, as varargs constructors do */
            char *err = NULL;
            GType t = types[v_below (&v_rng, 2)];
            guint fl = v_chance (&v_rng, 30) ? G_VALUE_NOCOPY_CONTENTS : 0;
            if (has[i] != -2) { g_value_unset (&val[i]); memset (&val[i], 0, sizeof val[i]); if (o >= 0 && has[i] == o && SUM (o) == 1) o = -1; has[i] = -2; }
            if (fl) err = gv_collect (&val[i], t, PTR (o), fl);
            else { g_value_init (&val[i], t); gv_vset (&val[i], t, &err, PTR (o)); }
            v_check (err == NULL, "value-collect", "collecting object %d failed: %s", o, err);
            has[i] = o;
          }
          break;
        case 9:
          if (has[i] != -2)
            {
              gpointer out = (gpointer) 1; char *err = NULL;
              guint fl = v_chance (&v_rng, 40) ? G_VALUE_NOCOPY_CONTENTS : 0;
              gv_vget (&val[i], fl, &err, &out);
              v_check (err == NULL, "value-lcopy", "reading a value out failed: %s", err);
              v_check (out == PTR (has[i]), "value-lcopy", "a value with object %d gave %p, not %p", has[i], out, PTR (has[i]));
              if (out && !fl) own[has[i]]++;
              v_eval (1);
            }
          break;
        case 10:
          { /* into a future and out of it again */
            if (has[i] != -2 && fut[f] == NULL)
              {
                if (v_chance (&v_rng, 50)) fut[f] = dex_future_new_for_value (&val[i]);
                else { DexPromise *p = dex_promise_new (); dex_promise_resolve (p, &val[i]); fut[f] = DEX_FUTURE (p); }
                fhas[f] = has[i];
              }
            else if (fut[f] != NULL)
              {
                GError *e = NULL;
                const GValue *got = dex_future_get_value (fut[f], &e);
                v_check (got && !e && G_VALUE_HOLDS (got, DEX_TYPE_OBJECT), "value-future", "a future settled with an object gave %s", got ? G_VALUE_TYPE_NAME (got) : e ? e->message : "nothing");
                v_check (dex_value_get_object (got) == PTR (fhas[f]), "value-future", "a future settled with object %d gave %p", fhas[f], dex_value_get_object (got));
                if (v_chance (&v_rng, 50)) { dex_unref (fut[f]); fut[f] = NULL; fhas[f] = -1; }
                v_eval (1);
              }
          }
          break;
        case 11: if (o >= 0) { dex_ref (objs[o]); own[o]++; } break;
        case 12: case 13: if (o >= 0 && own[o] > 0) { own[o]--; dex_unref (objs[o]); } break;
        }
      for (int q = 0; q < NO; q++)
        {
          int now = SUM (q);
          v_check (atomic_load (&fin[q]) == (now == 0), now ? "value-freed" : "value-leak", "object %d: %d references (%d own) after operation %d, finalized %d times", q, now, own[q], op, fin[q]);
        }
      for (int q = 0; q < NV; q++)
        if (has[q] != -2)
          {
            v_check (dex_value_get_object (&val[q]) == PTR (has[q]) && g_value_peek_pointer (&val[q]) == (gpointer) PTR (has[q]), "value-get", "value %d should hold object %d, holds %p", q, has[q], dex_value_get_object (&val[q]));
            if (has[q] >= 0) CHECK_ALIVE (objs[has[q]], "value");
          }
      sig = v_hash_add (sig, op * 100 + i * 10 + (o + 1));
      v_eval (NO + NV); v_event (1);
    }
  for (int i = 0; i < NV; i++) if (has[i] != -2) { g_value_unset (&val[i]); has[i] = -2; }
  for (int f = 0; f < NF; f++) if (fut[f]) { dex_unref (fut[f]); fut[f] = NULL; }
  for (int o = 0; o < NO; o++) while (own[o]) { own[o]--; dex_unref (objs[o]); }
  for (int o = 0; o < NO; o++) v_check (atomic_load (&fin[o]) == 1, "value-leak", "object %d finalized %d times at the end", o, fin[o]);
  v_check (v_live () == l0, "object-leak", "live %ld expected %ld", (long) v_live (), (long) l0);
  v_sig (sig);
  v_sample ("%u operations on %d objects in %d values and %d futures, every finalize at the predicted step", ops, NO, NV, NF);
}

/* values with one object copied and dropped on several threads */
typedef struct { DexFuture *f; VT *o; _Atomic int reads; } GvShare;
static void
gv_share_thread (guint idx, VRng *rng, gpointer data)
{
  GvShare *g = data;
  for (int r = 0; r < 40; r++)
    {
      GValue v = G_VALUE_INIT, w = G_VALUE_INIT;
      const GValue *got = dex_future_get_value (g->f, NULL);
      v_check (got != NULL && dex_value_get_object (got) == (DexObject *) g->o, "value-future", "wrong object in a settled future");
      g_value_init (&v, G_VALUE_TYPE (got)); g_value_copy (got, &v);
      v_noise_point ();
      g_value_init (&w, DEX_TYPE_OBJECT); dex_value_set_object (&w, dex_value_get_object (&v));
      g_value_unset (&v);
      CHECK_ALIVE (dex_value_get_object (&w), "copy");
      v_noise_point ();
      g_value_unset (&w);
      atomic_fetch_add (&g->reads, 1);
    }
  dex_unref (g->f);
}
static void
s_gvalue_mt (void)
{
  GvShare g = { 0 };
  _Atomic int fin = 0;
  gint64 l0 = v_live ();
  guint n = 2 + v_below (&v_rng, 4);
  GValue v = G_VALUE_INIT;
  g.o = vt_new (1); g.o->fin = &fin;
  g_value_init (&v, VT_TYPE); dex_value_take_object (&v, (DexObject *) g.o);
  g.f = dex_future_new_for_value (&v);
  g_value_unset (&v);
  for (guint i = 1; i < n; i++) dex_ref (g.f);
  v_par (n, gv_share_thread, &g);
  v_check (atomic_load (&fin) == 1, "value-leak", "object in a shared future finalized %d times after its last reader left", fin);
  v_check (v_live () == l0, "object-leak", "live %ld expected %ld", (long) v_live (), (long) l0);
  v_eval (n + 1); v_event (g.reads); v_sigf ("gv %u %d", n, g.reads);
}

static const VScenario scenarios[] = {
  { "model", s_model, 100 },
  { "gauntlet", s_gauntlet, 100 },
  { "gauntlet-set", s_gauntlet_set, 100 },
  { "gauntlet-detach", s_gauntlet_detach, 100 },
  { "pair", s_pair, 60 },
  { "complete-vs-release", s_complete_vs_release, 60 },
  { "gvalue", s_gvalue, 100 },
  { "gvalue-mt", s_gvalue_mt, 30 },
  { 0 }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
