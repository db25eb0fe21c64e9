/* C10-C13: channels against a reference queue, and under many threads */
#include "vout.h"
#include "dex-scheduler-private.h"

#define CLOSED (V_OUT_DEXERR + 2 * DEX_ERROR_CHANNEL_CLOSED)
#define DEPFAIL (V_OUT_DEXERR + 2 * DEX_ERROR_DEPENDENCY_FAILED)

/* the value of a send is a number of items in the buffer; only its type is looked at */
static int
send_state (DexFuture *f)
{
  DexFutureStatus st = dex_future_get_status (f);
  GError *e = NULL;
  const GValue *v;
  if (st == DEX_FUTURE_STATUS_PENDING) return 0;
  v = dex_future_get_value (f, &e);
  if (st == DEX_FUTURE_STATUS_RESOLVED)
    { v_check (v && G_VALUE_HOLDS_UINT (v), "send-value", "a send resolved with %s", v ? G_VALUE_TYPE_NAME (v) : "nothing"); return 1; }
  v_check (g_error_matches (e, DEX_ERROR, DEX_ERROR_CHANNEL_CLOSED), "send-error", "a send was rejected with %s", e ? e->message : "nothing");
  g_clear_error (&e);
  return -1;
}
static const char *sstr (int s) { return s == 0 ? "pending" : s > 0 ? "resolved" : "rejected"; }

/* ================================================================ reference model, one thread */
#define MAXOP 160
enum { MI_SENDQ, MI_QUEUE, MI_TAKEN, MI_DROPPED };
typedef struct { DexFuture *item, *send; int out; gboolean late, settled; int want_send; int where; } MItem;
enum { RO_WAIT, RO_ITEM, RO_CLOSED };
typedef struct { DexFuture *f; gboolean all; int st; int item; } MRecv;
typedef struct { DexFuture *f; int n; int item[MAXOP]; gboolean closed; } MAll;
typedef struct {
  DexChannel *c;
  guint cap; gboolean can_send, can_recv;
  MItem it[MAXOP]; int ni;
  MRecv rv[MAXOP]; int nr;
  MAll *al; int na;
  int sendq[MAXOP], ns, queue[MAXOP], nq, recvq[MAXOP], nrq;
} Model;

static int shift (int *a, int *n) { int x = a[0]; memmove (a, a + 1, sizeof (int) * --*n); return x; }

static void
m_move_up (Model *m)
{
  while (m->ns && (guint) m->nq < m->cap)
    { int i = shift (m->sendq, &m->ns); m->it[i].where = MI_QUEUE; m->it[i].want_send = 1; m->queue[m->nq++] = i; }
}
static void
m_match (Model *m)
{
  while (m->nq && m->nrq)
    {
      int r = shift (m->recvq, &m->nrq), i = shift (m->queue, &m->nq);
      m->rv[r].st = RO_ITEM; m->rv[r].item = i; m->it[i].where = MI_TAKEN;
      m_move_up (m);
    }
}
static void
m_close (Model *m, gboolean send, gboolean recv)
{
  if (send)
    {
      m->can_send = FALSE;
      while (m->nrq > m->ns + m->nq) m->rv[m->recvq[--m->nrq]].st = RO_CLOSED;
    }
  if (recv)
    {
      m->can_recv = FALSE;
      for (int k = 0; k < m->nrq; k++) m->rv[m->recvq[k]].st = RO_CLOSED;
      for (int k = 0; k < m->nq; k++) m->it[m->queue[k]].where = MI_DROPPED;
      for (int k = 0; k < m->ns; k++) { m->it[m->sendq[k]].where = MI_DROPPED; m->it[m->sendq[k]].want_send = -1; }
      m->nrq = m->nq = m->ns = 0;
    }
}

static int
m_item_out (Model *m, int i) { return m->it[i].settled ? m->it[i].out : V_PENDING; }

static void
m_compare (Model *m, const char *op)
{
  for (int i = 0; i < m->ni; i++)
    if (m->it[i].send)
      {
        int s = send_state (m->it[i].send);
        v_check (s == m->it[i].want_send, "send-state", "after %s: send %d is %s, expected %s (capacity %u, %d buffered, %d waiting to send, %d waiting to receive)",
                 op, i, sstr (s), sstr (m->it[i].want_send), m->cap, m->nq, m->ns, m->nrq);
        v_eval (1);
      }
  for (int r = 0; r < m->nr; r++)
    {
      MRecv *x = &m->rv[r];
      int want, got;
      if (!x->f) continue;
      want = x->st == RO_WAIT ? V_PENDING : x->st == RO_CLOSED ? CLOSED : m_item_out (m, x->item);
      got = v_out_read (x->f, "receive");
      if (x->all && want != V_PENDING) want = (want & 1) ? DEPFAIL : V_OUT_TRUE;
      v_check (got == want, "receive-state", "after %s: receive %d%s is %s, expected %s (item %d; %d buffered, %d to send, %d to receive)",
               op, r, x->all ? " (receive_all)" : "", v_out_str (got), v_out_str (want), x->st == RO_ITEM ? x->item : -1, m->nq, m->ns, m->nrq);
      if (x->all)
        {
          GError *e = NULL;
          const GValue *v;
          int o;
          v_check (dex_future_set_get_size (DEX_FUTURE_SET (x->f)) == 1, "all-size", "receive_all on an empty channel yields %u futures", dex_future_set_get_size (DEX_FUTURE_SET (x->f)));
          v = dex_future_set_get_value_at (DEX_FUTURE_SET (x->f), 0, &e);
          want = x->st == RO_WAIT ? V_PENDING : x->st == RO_CLOSED ? CLOSED : m_item_out (m, x->item);
          o = v ? v_out_of_value (v, "receive_all") : g_error_matches (e, DEX_ERROR, DEX_ERROR_PENDING) ? V_PENDING : v_out_of_error (e, "receive_all");
          v_check (o == want, "receive-state", "after %s: receive_all %d holds %s, expected %s", op, r, v_out_str (o), v_out_str (want));
          g_clear_error (&e);
        }
      v_eval (1);
    }
  for (int a = 0; a < m->na; a++)
    {
      MAll *x = &m->al[a];
      int pend = 0, rej = 0, got;
      if (!x->f) continue;
      got = v_out_read (x->f, "receive_all");
      if (x->closed) { v_check (got == CLOSED, "receive-state", "after %s: receive_all on a closed channel is %s", op, v_out_str (got)); continue; }
      v_check ((int) dex_future_set_get_size (DEX_FUTURE_SET (x->f)) == x->n, "all-size", "after %s: receive_all took %u values, %d were queued", op, dex_future_set_get_size (DEX_FUTURE_SET (x->f)), x->n);
      for (int k = 0; k < x->n; k++)
        {
          int o = m_item_out (m, x->item[k]);
          DexFuture *f = dex_future_set_get_future_at (DEX_FUTURE_SET (x->f), k);
          pend += o == V_PENDING; rej += o != V_PENDING && (o & 1);
          v_check (v_out_read (f, "receive_all item") == o, "all-order", "after %s: value %d of %d in receive_all is %s, the one sent is %s", op, k, x->n, v_out_str (v_out_read (f, "receive_all item")), v_out_str (o));
          v_eval (1);
        }
      v_check (got == (pend ? V_PENDING : rej ? DEPFAIL : V_OUT_TRUE), "receive-state", "after %s: receive_all of %d values (%d pending, %d rejected) is %s", op, x->n, pend, rej, v_out_str (got));
    }
  if (m->c)
    v_check (dex_channel_can_send (m->c) == m->can_send && dex_channel_can_receive (m->c) == m->can_recv, "can-flags",
             "after %s: can_send %d can_receive %d, expected %d %d", op, dex_channel_can_send (m->c), dex_channel_can_receive (m->c), m->can_send, m->can_recv);
}

static void
s_model (void)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  Model *m = g_new0 (Model, 1);
  guint cap = v_chance (&v_rng, 15) ? 0 : 1 + v_below (&v_rng, v_chance (&v_rng, 60) ? 3 : 12);
  int ops = 10 + v_below (&v_rng, MAXOP - 12);
  guint bias = 25 + v_below (&v_rng, 50), latepct = v_below (&v_rng, 4) * 25, allpct = v_below (&v_rng, 4) * 15, rejpct = v_below (&v_rng, 3) * 20;
  guint closepm = v_below (&v_rng, 3) * 15, keep = v_chance (&v_rng, 70);
  uint64_t sig = cap;
  guint maxwait = 0, maxrecv = 0;
  m->c = dex_channel_new (cap);
  m->cap = cap ? cap : G_MAXUINT;
  m->can_send = m->can_recv = TRUE;
  m->al = g_new0 (MAll, MAXOP);
  for (int o = 0; o < ops; o++)
    {
      const char *op = "nothing";
      guint x = v_below (&v_rng, 100);
      if (v_below (&v_rng, 1000) < closepm)
        {
          gboolean s = v_chance (&v_rng, 70);
          op = s ? "close_send" : "close_receive";
          if (s) dex_channel_close_send (m->c); else dex_channel_close_receive (m->c);
          m_close (m, s, !s);
          sig = v_hash_add (sig, 100 + s);
        }
      else if (v_chance (&v_rng, 20))
        { /* a late one settles */
          int n = 0, pick = -1;
          for (int i = 0; i < m->ni; i++) if (!m->it[i].settled && v_below (&v_rng, ++n) == 0) pick = i;
          if (pick >= 0)
            {
              op = "late completion";
              v_out_complete (DEX_PROMISE (m->it[pick].item), m->it[pick].out, TRUE);
              m->it[pick].settled = TRUE;
              sig = v_hash_add (sig, 200 + m->it[pick].where);
            }
        }
      else if (!keep && v_chance (&v_rng, 10))
        { /* lets go of one it was given */
          int i = m->ni ? (int) v_below (&v_rng, m->ni) : -1;
          op = "release";
          if (i >= 0 && m->it[i].send) dex_clear (&m->it[i].send);
          i = m->nr ? (int) v_below (&v_rng, m->nr) : -1;
          if (i >= 0 && m->rv[i].f && m->rv[i].st != RO_WAIT) dex_clear (&m->rv[i].f);
        }
      else if (x < bias)
        {
          MItem *i = &m->it[m->ni];
          op = "send";
          i->out = 20 * (m->ni + 1) + 2 * (int) v_below (&v_rng, 10);
          if (v_chance (&v_rng, rejpct)) i->out |= 1;
          i->settled = !v_chance (&v_rng, latepct);
          if (i->settled && v_chance (&v_rng, 50)) i->item = v_out_static (i->out);
          else { i->item = DEX_FUTURE (v_chance (&v_rng, 50) ? dex_promise_new () : dex_promise_new_cancellable ()); if (i->settled) v_out_complete (DEX_PROMISE (i->item), i->out, TRUE); }
          i->send = dex_channel_send (m->c, dex_ref (i->item));
          if (!m->can_send || !m->can_recv) { i->want_send = -1; i->where = MI_DROPPED; }
          else if (m->ns == 0 && (guint) m->nq < m->cap) { i->want_send = 1; i->where = MI_QUEUE; m->queue[m->nq++] = m->ni; }
          else { i->where = MI_SENDQ; m->sendq[m->ns++] = m->ni; }
          m->ni++;
          m_match (m);
          sig = v_hash_add (sig, 10 + i->where);
        }
      else if (v_chance (&v_rng, allpct) && m->can_recv && m->nq)
        {
          MAll *a = &m->al[m->na++];
          op = "receive_all";
          a->f = dex_channel_receive_all (m->c);
          for (int k = 0; k < m->nq; k++) { a->item[a->n++] = m->queue[k]; m->it[m->queue[k]].where = MI_TAKEN; }
          m->nq = 0;
          m_move_up (m);
          sig = v_hash_add (sig, 40 + a->n);
        }
      else
        {
          MRecv *r = &m->rv[m->nr];
          gboolean all = v_chance (&v_rng, allpct) && m->nq == 0;
          op = all ? "receive_all" : "receive";
          if (all && !m->can_recv)
            { MAll *a = &m->al[m->na++]; a->closed = TRUE; a->f = dex_channel_receive_all (m->c); }
          else
            {
              r->all = all;
              r->f = all ? dex_channel_receive_all (m->c) : dex_channel_receive (m->c);
              if (!m->can_recv || (!m->can_send && m->nq + m->ns <= m->nrq)) r->st = RO_CLOSED;
              else { r->st = RO_WAIT; m->recvq[m->nrq++] = m->nr; m_match (m); }
              m->nr++;
              sig = v_hash_add (sig, 30 + r->st);
            }
        }
      maxwait = MAX (maxwait, (guint) m->ns); maxrecv = MAX (maxrecv, (guint) m->nrq);
      m_compare (m, op);
      v_event (1);
    }
  /* the end: in turn closed, released or emptied first */
  switch (v_below (&v_rng, 3))
    {
    case 0:
      dex_channel_close_send (m->c); m_close (m, TRUE, FALSE); m_compare (m, "close_send");
      while (m->nr < MAXOP && m->can_recv)
        {
          MRecv *r = &m->rv[m->nr];
          r->f = dex_channel_receive (m->c);
          if (m->nq + m->ns <= m->nrq) r->st = RO_CLOSED;
          else { r->st = RO_WAIT; m->recvq[m->nrq++] = m->nr; m_match (m); }
          m->nr++;
          m_compare (m, "emptying");
          if (r->st == RO_CLOSED) break;
        }
      break;
    case 1: dex_channel_close_receive (m->c); m_close (m, FALSE, TRUE); m_compare (m, "close_receive"); break;
    default: break;
    }
  m_close (m, TRUE, TRUE);
  dex_clear (&m->c);
  m_compare (m, "release of the channel");
  for (int i = 0; i < m->ni; i++)
    if (!m->it[i].settled && v_chance (&v_rng, 50)) { v_out_complete (DEX_PROMISE (m->it[i].item), m->it[i].out, TRUE); m->it[i].settled = TRUE; }
  m_compare (m, "late completions");
  v_sig (sig);
  v_count ("max_senders_waiting", maxwait); v_count ("max_receivers_waiting", maxrecv);
  v_sample ("capacity %u, %d sends, %d receives, %d receive_all, up to %u senders and %u receivers waiting", cap, m->ni, m->nr, m->na, maxwait, maxrecv);
  for (int i = 0; i < m->ni; i++) { dex_clear (&m->it[i].item); dex_clear (&m->it[i].send); }
  for (int r = 0; r < m->nr; r++) dex_clear (&m->rv[r].f);
  for (int a = 0; a < m->na; a++) dex_clear (&m->al[a].f);
  v_drain ();
  v_expect_live (l0, "channel");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left: %d boxed, %d objects", v_box_live () - box0, v_obj_live () - obj0);
  g_free (m->al); g_free (m);
}

/* ================================================================ many values
 * The same queue with counters in place of lists: item i is delivered to the i-th
 * request, and its send is resolved once fewer than `capacity` items lie before it. */
static guint
vol_count (void)
{
  static const guint edge[] = { 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097 };
  static const guint big[] = { 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
  if (v_chance (&v_rng, 4)) return big[v_below (&v_rng, G_N_ELEMENTS (big))];
  if (v_chance (&v_rng, 70)) return edge[v_below (&v_rng, G_N_ELEMENTS (edge))];
  return 1 + v_below (&v_rng, 3000);
}
typedef struct { DexFuture *f; gboolean all; guint first, n; int closed; } VolR;

static void
vol_check (GPtrArray *sends, GArray *recvs, guint64 delivered, guint64 cap, guint rejected_from, const char *op)
{
  for (guint i = 0; i < sends->len; i++)
    {
      int s = send_state (sends->pdata[i]), want = i >= rejected_from ? -1 : i < delivered + cap ? 1 : 0;
      if (s != want) v_fail ("send-state", "after %s: send %u of %u is %s, expected %s (capacity %" G_GUINT64_FORMAT ", %" G_GUINT64_FORMAT " received)", op, i, sends->len, sstr (s), sstr (want), cap, delivered);
    }
  for (guint k = 0; k < recvs->len; k++)
    {
      VolR *r = &g_array_index (recvs, VolR, k);
      int got;
      if (r->closed < 2 && r->all && r->n && !r->closed)
        {
          guint n = dex_future_set_get_size (DEX_FUTURE_SET (r->f));
          v_check (n == r->n, "all-size", "after %s: receive_all yields %u values, %u were queued", op, n, r->n);
          for (guint j = 0; j < n; j++)
            {
              DexFuture *f = dex_future_set_get_future_at (DEX_FUTURE_SET (r->f), j);
              const GValue *v = dex_future_get_value (f, NULL);
              if (!v || g_value_get_int (v) != (int) (r->first + j))
                v_fail ("all-order", "after %s: value %u of %u in receive_all is %d, sent was %u", op, j, n, v ? g_value_get_int (v) : -1, r->first + j);
            }
          v_eval (n);
          r->closed = 2; /* stays as it is */
          continue;
        }
      if (r->all) continue;
      got = (int) dex_future_get_status (r->f);
      if (r->closed) { v_check (v_out_read (r->f, "receive") == CLOSED, "receive-state", "after %s: receive %u of %u is %d, the channel is closed", op, k, recvs->len, got); continue; }
      if (r->first >= delivered)
        { v_check (got == DEX_FUTURE_STATUS_PENDING, "receive-state", "after %s: receive %u is settled, its value was not sent yet", op, k); continue; }
      {
        const GValue *v = dex_future_get_value (r->f, NULL);
        if (!v || g_value_get_int (v) != (int) r->first)
          v_fail ("receive-state", "after %s: receive %u of %u holds %d, expected value %u", op, k, recvs->len, v ? g_value_get_int (v) : -1, r->first);
      }
    }
  v_eval (sends->len + recvs->len);
}

static void
s_volume (void)
{
  static const guint caps[] = { 0, 0, 1, 2, 3, 15, 16, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, G_MAXINT, G_MAXUINT };
  gint64 l0 = v_live ();
  guint cap = caps[v_below (&v_rng, G_N_ELEMENTS (caps))];
  guint64 ecap = cap ? cap : G_MAXUINT, requests = 0, delivered = 0, room, maxq = 0, maxr = 0;
  GPtrArray *sends = g_ptr_array_new_with_free_func (dex_unref);
  GArray *recvs = g_array_new (FALSE, TRUE, sizeof (VolR));
  DexChannel *c = dex_channel_new (cap);
  guint phases = 2 + v_below (&v_rng, 6), end = v_below (&v_rng, 3), rej;
  const char *op = "nothing";
  uint64_t sig = cap;
  gboolean deep = v_iter % 8 == 0; /* a queue that no 16 bits count */
  if (deep && cap && cap < 65535) { dex_unref (c); cap = 65534 + v_below (&v_rng, 4); ecap = cap; c = dex_channel_new (cap); sig = cap; }
  for (guint p = 0; p < phases && sends->len < 120000 && recvs->len < 120000; p++)
    {
      guint n = vol_count (), what = v_below (&v_rng, 10);
      if (deep && p == 0) { n = 65530 + v_below (&v_rng, 12); what = 0; }
      if (what < 5)
        {
          op = "sending";
          for (guint i = 0; i < n; i++) g_ptr_array_add (sends, dex_channel_send (c, dex_future_new_for_int ((int) sends->len)));
        }
      else if (what < 8)
        {
          op = "receiving";
          for (guint i = 0; i < n; i++)
            { VolR r = { dex_channel_receive (c), FALSE, (guint) requests++, 1, 0 }; g_array_append_val (recvs, r); }
        }
      else
        {
          op = "receive_all";
          for (guint i = 0; i < 1 + n % 4; i++)
            {
              guint64 q = sends->len > requests ? MIN (sends->len - requests, ecap) : 0;
              VolR r;
              if (!q) break;
              r = (VolR) { dex_channel_receive_all (c), TRUE, (guint) requests, (guint) q, 0 };
              requests += q;
              g_array_append_val (recvs, r);
            }
        }
      delivered = MIN ((guint64) sends->len, requests);
      maxq = MAX (maxq, sends->len - delivered); maxr = MAX (maxr, requests - delivered);
      sig = v_hash_add (v_hash_add (sig, what), n);
      vol_check (sends, recvs, delivered, ecap, G_MAXUINT, op);
      v_event (n);
    }
  rej = G_MAXUINT;
  room = sends->len - delivered;
  if (end == 0)
    {
      op = "close_send";
      dex_channel_close_send (c);
      for (guint k = 0; k < recvs->len; k++) { VolR *r = &g_array_index (recvs, VolR, k); if (!r->all && r->first >= delivered) r->closed = 1; }
      vol_check (sends, recvs, delivered, ecap, rej, op);
      if (v_chance (&v_rng, 70) && room)
        {
          op = "emptying";
          for (guint64 i = 0; i < room; i++)
            { VolR r = { dex_channel_receive (c), FALSE, (guint) delivered++, 1, 0 }; g_array_append_val (recvs, r); }
          { VolR r = { dex_channel_receive (c), FALSE, 0, 1, 1 }; g_array_append_val (recvs, r); }
          vol_check (sends, recvs, delivered, ecap, rej, op);
        }
    }
  else if (end == 1)
    {
      op = "close_receive";
      dex_channel_close_receive (c);
      for (guint k = 0; k < recvs->len; k++) { VolR *r = &g_array_index (recvs, VolR, k); if (!r->all && r->first >= delivered) r->closed = 1; }
      if (delivered + ecap < sends->len) rej = (guint) (delivered + ecap);
      vol_check (sends, recvs, delivered, ecap, rej, op);
    }
  dex_clear (&c);
  for (guint k = 0; k < recvs->len; k++) { VolR *r = &g_array_index (recvs, VolR, k); if (!r->all && r->first >= delivered) r->closed = 1; }
  if (delivered + ecap < sends->len) rej = (guint) (delivered + ecap);
  vol_check (sends, recvs, delivered, ecap, rej, "release");
  v_sig (sig);
  v_count ("max_values_queued", (guint) maxq); v_count ("max_receivers_waiting", (guint) maxr);
  v_sample ("capacity %u, %u values, %u receives, up to %u queued and %u waiting", cap, sends->len, recvs->len, (guint) maxq, (guint) maxr);
  g_ptr_array_unref (sends);
  for (guint k = 0; k < recvs->len; k++) dex_unref (g_array_index (recvs, VolR, k).f);
  g_array_unref (recvs);
  v_drain ();
  v_expect_live (l0, "channel volume");
}

/* ================================================================ threads */
#define MT_MAX 8
#define PER_MAX 64
static _Atomic int clk;
static int tick (void) { return atomic_fetch_add (&clk, 1); }

typedef struct { DexFuture *f, *send; int out; gboolean late; int t0, t1; int state; /* final */ int taken; int tk0, tk1; } Msg;
typedef struct { DexFuture *f; gboolean all; int t0, t1; } Rcv;
typedef struct {
  DexChannel *c; guint cap;
  guint ns, nr, per_send, per_recv, allpct, latepct, waitpct, closer;   /* closer: 0 none, 1 send, 2 receive, 3 both */
  int close_after, close_t0, close_t1;
  Msg m[MT_MAX][PER_MAX]; int nm[MT_MAX];
  Rcv r[MT_MAX][PER_MAX * 8]; int nrc[MT_MAX];
  int recv_started, sends_done; _Atomic int stop;
  int maxin;
  DexPromise *late[MT_MAX * PER_MAX];
} Mt;

static int
msg_out (guint s, guint k, gboolean rej) { return (20 * (int)(s * PER_MAX + k + 1) + 2 * (int)((s * 7 + k) % 10)) | (rej ? 1 : 0); }

static void
mt_monitor (Mt *t)
{
  /* sends seen resolved first, receives started after: the difference can only look smaller than it is */
  int resolved = 0, started;
  for (guint s = 0; s < t->ns; s++)
    {
      int n = __atomic_load_n (&t->nm[s], __ATOMIC_ACQUIRE);
      for (int k = 0; k < n; k++) resolved += dex_future_is_resolved (t->m[s][k].send);
    }
  started = __atomic_load_n (&t->recv_started, __ATOMIC_SEQ_CST);
  if (t->cap && resolved > started + (int) t->cap)
    v_fail ("over-capacity", "%d sends resolved with capacity %u and at most %d values received", resolved, t->cap, started);
  t->maxin = MAX (t->maxin, resolved - started);
  v_eval (1);
}

static void
mt_thread (guint idx, VRng *rng, gpointer data)
{
  Mt *t = data;
  if (idx < t->ns)
    {
      for (guint k = 0; k < t->per_send; k++)
        {
          Msg *m = &t->m[idx][k];
          guint waited = 0;
          m->out = msg_out (idx, k, v_chance (rng, 15));
          m->late = v_chance (rng, t->latepct);
          if (m->late || v_chance (rng, 50)) { m->f = DEX_FUTURE (dex_promise_new ()); if (!m->late) v_out_complete (DEX_PROMISE (m->f), m->out, TRUE); }
          else m->f = v_out_static (m->out);
          v_noise_point ();
          m->t0 = tick ();
          m->send = dex_channel_send (t->c, dex_ref (m->f));
          m->t1 = tick ();
          __atomic_store_n (&t->nm[idx], k + 1, __ATOMIC_RELEASE);
          if (v_chance (rng, 60) && m->late) { v_out_complete (DEX_PROMISE (m->f), m->out, TRUE); }
          if (v_chance (rng, t->waitpct))
            while (dex_future_is_pending (m->send) && waited++ < 60) g_thread_yield ();
          g_atomic_int_inc (&t->sends_done);
        }
    }
  else if (idx < t->ns + t->nr)
    {
      guint i = idx - t->ns, waited = 0;
      for (guint k = 0; k < t->per_recv; k++)
        {
          Rcv *r = &t->r[i][k];
          v_noise_point ();
          r->all = v_chance (rng, t->allpct);
          /* every value a receive_all may take counts as a receive that started */
          __atomic_fetch_add (&t->recv_started, r->all ? (int) (t->cap ? t->cap : 100000) : 1, __ATOMIC_SEQ_CST);
          r->t0 = tick ();
          r->f = r->all ? dex_channel_receive_all (t->c) : dex_channel_receive (t->c);
          r->t1 = tick ();
          t->nrc[i] = k + 1;
          if (v_chance (rng, t->waitpct))
            while (dex_future_is_pending (r->f) && waited++ < 60) g_thread_yield ();
        }
    }
  else if (t->closer)
    {
      guint w = 0;
      while (g_atomic_int_get (&t->sends_done) < t->close_after && w++ < 5000) { if (w % 64 == 0) mt_monitor (t); g_thread_yield (); }
      v_check (dex_channel_can_send (t->c) && dex_channel_can_receive (t->c), "can-flags", "an open channel reports itself closed");
      t->close_t0 = tick ();
      if (t->closer & 1) dex_channel_close_send (t->c);
      if (t->closer & 2) dex_channel_close_receive (t->c);
      t->close_t1 = tick ();
      v_check (dex_channel_can_send (t->c) == !(t->closer & 1) && dex_channel_can_receive (t->c) == !(t->closer & 2), "can-flags", "can_send %d can_receive %d after close %u",
               dex_channel_can_send (t->c), dex_channel_can_receive (t->c), t->closer);
    }
  else
    while (!t->stop && g_atomic_int_get (&t->sends_done) < (int) (t->ns * t->per_send)) { mt_monitor (t); g_thread_yield (); }
}

typedef struct { Msg *m; guint s, k; int t0, t1; int rthread, ridx, sub; } Take;

static void
mt_take (Mt *t, Take *tk, int *n, DexFuture *f, Rcv *r, guint ri, guint rk, guint sub)
{
  int o = v_out_read (f, "received"), id;
  Msg *m;
  if (o == CLOSED) return;
  v_check (o != V_PENDING, "receive-pending", "a value was taken by receive %u/%u but it is pending", ri, rk);
  id = o / 20 - 1;
  v_check (id >= 0 && (guint) id / PER_MAX < t->ns && id % PER_MAX < t->nm[id / PER_MAX], "invented-value", "received %s, which nobody sent", v_out_str (o));
  m = &t->m[id / PER_MAX][id % PER_MAX];
  v_check (m->out == o, "invented-value", "received %s, sent was %s", v_out_str (o), v_out_str (m->out));
  v_check (!m->taken, "received-twice", "value %d of sender %d was received twice", id % PER_MAX, id / PER_MAX);
  v_check (m->state >= 0, "received-rejected", "value %d of sender %d was received although its send was rejected", id % PER_MAX, id / PER_MAX);
  m->taken = 1; m->tk0 = r->t0; m->tk1 = r->t1;
  tk[(*n)++] = (Take) { m, id / PER_MAX, id % PER_MAX, r->t0, r->t1, ri, rk, sub };
}

/* everything is settled; the history must be one a single queue can produce */
static void
mt_judge (Mt *t, const char *what, gboolean complete)
{
  static Take tk[MT_MAX * PER_MAX];
  int n = 0, accepted = 0;
  for (guint s = 0; s < t->ns; s++)
    for (int k = 0; k < t->nm[s]; k++) { t->m[s][k].state = send_state (t->m[s][k].send); accepted += t->m[s][k].state >= 0; }
  for (guint i = 0; i < t->nr; i++)
    for (int k = 0; k < t->nrc[i]; k++)
      {
        Rcv *r = &t->r[i][k];
        if (!r->f) continue;
        if (!r->all) { if (dex_future_is_pending (r->f)) continue; mt_take (t, tk, &n, r->f, r, i, k, 0); continue; }
        if (v_out_read (r->f, "receive_all") == CLOSED) continue;
        v_check (dex_future_set_get_size (DEX_FUTURE_SET (r->f)) > 0, "all-size", "receive_all yields an empty set");
        for (guint j = 0; j < dex_future_set_get_size (DEX_FUTURE_SET (r->f)); j++)
          {
            DexFuture *f = dex_future_set_get_future_at (DEX_FUTURE_SET (r->f), j);
            if (!dex_future_is_pending (f)) mt_take (t, tk, &n, f, r, i, k, j);
          }
      }
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++)
      {
        gboolean recv_before = a != b && (tk[a].t1 < tk[b].t0 || (tk[a].rthread == tk[b].rthread && tk[a].ridx == tk[b].ridx && tk[a].sub < tk[b].sub));
        if (recv_before && tk[b].m->t1 < tk[a].m->t0)
          v_fail (tk[a].s == tk[b].s ? "order-sender" : "order-fifo",
                  "%s: value %d of sender %d was received before value %d of sender %d that was sent earlier", what, tk[a].k, tk[a].s, tk[b].k, tk[b].s);
        if (recv_before && tk[a].s == tk[b].s && tk[b].k < tk[a].k) v_fail ("order-sender", "%s: sender %d: value %d received before value %d", what, tk[a].s, tk[a].k, tk[b].k);
      }
  if (complete)
    v_check (n == accepted, "lost-value", "%s: %d sends accepted, %d values received", what, accepted, n);
  v_eval (n * 3); v_event (n);
}

/* what holds whenever no call is in progress and every message has settled */
static void
mt_balance (Mt *t, const char *what)
{
  int pr = 0, ps = 0, rs = 0, rej = 0, delivered = 0, sent = 0;
  for (guint s = 0; s < t->ns; s++)
    for (int k = 0; k < t->nm[s]; k++)
      { int st = send_state (t->m[s][k].send); sent++; if (st == 0) ps++; else if (st > 0) rs++; else rej++; }
  for (guint i = 0; i < t->nr; i++)
    for (int k = 0; k < t->nrc[i]; k++)
      {
        Rcv *r = &t->r[i][k];
        if (dex_future_is_pending (r->f)) { pr++; continue; }
        if (!r->all) { if (v_out_read (r->f, "receive") != CLOSED) delivered++; }
        else if (v_out_read (r->f, "receive") != CLOSED)
          for (guint j = 0; j < dex_future_set_get_size (DEX_FUTURE_SET (r->f)); j++)
            if (v_out_read (dex_future_set_get_future_at (DEX_FUTURE_SET (r->f), j), "receive") != CLOSED) delivered++;
      }
  if (!t->closer)
    {
      v_check (rej == 0, "send-state", "%s: %d sends rejected on an open channel", what, rej);
      if (pr) v_check (delivered == sent && ps == 0, "lost-wakeup", "%s: %d receivers wait although %d of %d values are undelivered (%d sends pending)", what, pr, sent - delivered, sent, ps);
      else
        {
          int want = t->cap ? MIN (sent, delivered + (int) t->cap) : sent;
          v_check (rs == want, rs > want ? "over-capacity" : "lost-wakeup", "%s: %d of %d sends resolved, capacity %u, %d delivered: expected %d", what, rs, sent, t->cap, delivered, want);
        }
    }
  else if (t->closer & 2)
    v_check (!pr && !ps, "pending-after-close", "%s: %d receives and %d sends pending after the receive side was closed", what, pr, ps);
  else
    {
      if (pr) v_fail ("pending-after-close", "%s: %d receives pending after the send side was closed, %d of %d accepted values delivered", what, pr, delivered, sent - rej);
      { int acc = sent - rej, want = t->cap ? MIN (acc, delivered + (int) t->cap) : acc;
        v_check (rs == want, "lost-wakeup", "%s: %d of %d accepted sends resolved, capacity %u, %d delivered", what, rs, acc, t->cap, delivered); }
    }
  v_eval (1);
}

static void
mt_close_judge (Mt *t)
{
  for (guint s = 0; s < t->ns; s++)
    for (int k = 0; k < t->nm[s]; k++)
      {
        Msg *m = &t->m[s][k];
        int st = send_state (m->send);
        if (m->t0 > t->close_t1) v_check (st < 0, "accepted-after-close", "a send started after close %u returned is %s", t->closer, sstr (st));
        if (m->t1 < t->close_t0 && t->closer == 1) v_check (st >= 0, "rejected-before-close", "a send that returned before close_send is %s", sstr (st));
        v_eval (1);
      }
  for (guint i = 0; i < t->nr; i++)
    for (int k = 0; k < t->nrc[i]; k++)
      {
        Rcv *r = &t->r[i][k];
        if ((t->closer & 2) && r->t0 > t->close_t1 && !r->all)
          v_check (v_out_read (r->f, "receive") == CLOSED, "accepted-after-close", "a receive started after close_receive returned is %s", v_out_str (v_out_read (r->f, "receive")));
        v_eval (1);
      }
}

static void
mt_settle (Mt *t)
{
  for (guint s = 0; s < t->ns; s++)
    for (int k = 0; k < t->nm[s]; k++)
      if (dex_future_is_pending (t->m[s][k].f)) v_out_complete (DEX_PROMISE (t->m[s][k].f), t->m[s][k].out, TRUE);
}

static void
mt_run (gboolean closing, gboolean all)
{
  gint64 l0 = v_live ();
  int box0 = v_box_live (), obj0 = v_obj_live ();
  Mt *t = g_new0 (Mt, 1);
  char what[96];
  guint extra = 0;
  clk = 0;
  t->cap = v_chance (&v_rng, 15) ? 0 : 1 + v_below (&v_rng, v_chance (&v_rng, 70) ? 3 : 16);
  t->ns = 1 + v_below (&v_rng, 3); t->nr = 1 + v_below (&v_rng, 3);
  t->per_send = 4 + v_below (&v_rng, PER_MAX - 8);
  t->per_recv = v_chance (&v_rng, 50) ? t->ns * t->per_send / t->nr : 2 + v_below (&v_rng, PER_MAX - 8);
  t->per_recv = MIN (t->per_recv, PER_MAX * 2 - 2);
  t->allpct = v_chance (&v_rng, 50) ? 0 : 10 + v_below (&v_rng, 60);
  if (all) t->allpct = 40 + v_below (&v_rng, 61);
  t->latepct = v_below (&v_rng, 4) * 15; t->waitpct = v_below (&v_rng, 3) * 40;
  if (closing) { t->closer = 1 + v_below (&v_rng, 3); t->close_after = v_below (&v_rng, t->ns * t->per_send); }
  t->c = dex_channel_new (t->cap);
  g_snprintf (what, sizeof what, "%u senders x %u, %u receivers x %u, capacity %u, receive_all %u%%, close %u", t->ns, t->per_send, t->nr, t->per_recv, t->cap, t->allpct, t->closer);
  v_par (t->ns + t->nr + 1, mt_thread, t);
  mt_settle (t);
  mt_monitor (t);
  mt_balance (t, what);
  if (t->closer) mt_close_judge (t);
  v_sample ("%s", what);
  /* take the rest, so that exactly-once can be judged */
  if (!(t->closer & 2))
    {
      Rcv *r = t->r[t->nr - 1];
      if (!t->closer)
        { /* waiting receivers get what they wait for */
          if (t->nm[0] < PER_MAX)
            for (guint i = 0; i < t->nr; i++)
              for (int k = 0; k < t->nrc[i] && t->nm[0] < PER_MAX; k++)
                if (dex_future_is_pending (t->r[i][k].f))
                  {
                    Msg *m = &t->m[0][t->nm[0]];
                    m->out = msg_out (0, t->nm[0], FALSE);
                    m->f = v_out_static (m->out); m->t0 = tick (); m->send = dex_channel_send (t->c, dex_ref (m->f)); m->t1 = tick ();
                    t->nm[0]++; extra++;
                  }
          if (extra) mt_balance (t, "after filling up");
        }
      dex_channel_close_send (t->c);
      for (;;)
        {
          DexFuture *f;
          Rcv x = { 0 };
          x.t0 = tick (); f = dex_channel_receive (t->c); x.t1 = tick (); x.f = f;
          r[t->nrc[t->nr - 1]++] = x;
          v_check (!dex_future_is_pending (f), "pending-after-close", "%s: a receive on a channel closed for sending is pending", what);
          if (v_out_read (f, "drain") == CLOSED) break;
          extra++;
        }
      for (guint i = 0; i < t->nr; i++)
        for (int k = 0; k < t->nrc[i]; k++)
          v_check (!dex_future_is_pending (t->r[i][k].f), "pending-after-close", "%s: a receive stays pending after close_send", what);
      mt_judge (t, what, TRUE);
    }
  else
    mt_judge (t, what, FALSE);
  {
    uint64_t h = t->cap;
    /* interleaving: which receiver got each value */
    for (guint i = 0; i < t->nr; i++) for (int k = 0; k < t->nrc[i]; k++)
      if (!t->r[i][k].all) h = v_hash_add (h, v_out_read (t->r[i][k].f, "sig"));
    v_sig (h);
  }
  v_count ("max_resolved_minus_received", t->maxin);
  dex_clear (&t->c);
  for (guint s = 0; s < t->ns; s++)
    for (int k = 0; k < t->nm[s]; k++)
      { v_check (send_state (t->m[s][k].send) != 0, "pending-after-close", "%s: a send stays pending after the channel is gone", what); dex_unref (t->m[s][k].send); dex_unref (t->m[s][k].f); }
  for (guint i = 0; i < t->nr; i++) for (int k = 0; k < t->nrc[i]; k++) dex_unref (t->r[i][k].f);
  g_free (t);
  v_expect_live (l0, "channel threads");
  v_check (v_box_live () == box0 && v_obj_live () == obj0, "payload-leak", "payloads left: %d boxed, %d objects", v_box_live () - box0, v_obj_live () - obj0);
}
static void s_mpmc (void) { mt_run (FALSE, FALSE); }
static void s_all_mt (void) { mt_run (v_chance (&v_rng, 30), TRUE); }
static void s_close (void) { mt_run (TRUE, FALSE); }

/* ================================================================ fibers and callbacks */
typedef struct { int sender, n; } FSeen;
typedef struct {
  DexChannel *c; guint cap, ns, nr, per; int senders_left, recv_left;
  int seen[MT_MAX][PER_MAX]; int last[MT_MAX][MT_MAX];
  int resolved, started; gboolean bad_close; gboolean use_all; int waits;
} Fb;
typedef struct { Fb *b; guint idx; } FbArg;

static void
fb_got (Fb *b, guint me, int o, const char *how)
{
  int id = o / 20 - 1, s = id / PER_MAX, k = id % PER_MAX;
  v_check (!(o & 1) && id >= 0 && (guint) s < b->ns && (guint) k < b->per, "invented-value", "%s: received %s", how, v_out_str (o));
  v_check (__atomic_fetch_add (&b->seen[s][k], 1, __ATOMIC_SEQ_CST) == 0, "received-twice", "%s: value %d of sender %d received twice", how, k, s);
  v_check (k > b->last[me][s] - 1, "order-sender", "%s: receiver %u got value %d of sender %d after value %d", how, me, k, s, b->last[me][s] - 1);
  b->last[me][s] = k + 1;
  v_event (1);
}

static DexFuture *
fb_sender (gpointer data)
{
  FbArg *a = data;
  Fb *b = a->b;
  for (guint k = 0; k < b->per; k++)
    {
      GError *e = NULL;
      DexFuture *s = dex_channel_send (b->c, v_out_static (20 * (int)(a->idx * PER_MAX + k + 1) + 2 * (int)(k % 10)));
      if (dex_future_is_pending (s)) __atomic_fetch_add (&b->waits, 1, __ATOMIC_RELAXED);
      if (!dex_await (s, &e)) v_fail ("send-state", "a send on an open channel failed: %s", e->message);
      {
        int r = __atomic_add_fetch (&b->resolved, 1, __ATOMIC_SEQ_CST);
        int st = __atomic_load_n (&b->started, __ATOMIC_SEQ_CST);
        if (b->cap && !b->use_all && r > st + (int) b->cap) v_fail ("over-capacity", "%d sends resolved with capacity %u and %d receives started", r, b->cap, st);
      }
      v_eval (1);
    }
  if (__atomic_sub_fetch (&b->senders_left, 1, __ATOMIC_SEQ_CST) == 0) dex_channel_close_send (b->c);
  return dex_future_new_for_int (20);
}

static DexFuture *
fb_receiver (gpointer data)
{
  FbArg *a = data;
  Fb *b = a->b;
  for (;;)
    {
      GError *e = NULL;
      DexFuture *f;
      gboolean all = b->use_all && (a->idx & 1);
      __atomic_fetch_add (&b->started, 1, __ATOMIC_SEQ_CST);
      f = all ? dex_channel_receive_all (b->c) : dex_channel_receive (b->c);
      if (!dex_await (dex_ref (f), &e))
        {
          v_check (g_error_matches (e, DEX_ERROR, all ? DEX_ERROR_DEPENDENCY_FAILED : DEX_ERROR_CHANNEL_CLOSED), "receive-error", "receive failed with %s", e->message);
          if (__atomic_load_n (&b->senders_left, __ATOMIC_SEQ_CST) > 0) v_fail ("closed-early", "a receive reports a closed channel with senders at work");
          g_clear_error (&e);
          dex_unref (f);
          break;
        }
      if (all)
        for (guint i = 0; i < dex_future_set_get_size (DEX_FUTURE_SET (f)); i++)
          fb_got (b, a->idx, v_out_of_value (dex_future_set_get_value_at (DEX_FUTURE_SET (f), i, NULL), "receive_all"), "fiber");
      else fb_got (b, a->idx, v_out_read (f, "receive"), "fiber");
      dex_unref (f);
      v_eval (1);
    }
  __atomic_sub_fetch (&b->recv_left, 1, __ATOMIC_SEQ_CST);
  return dex_future_new_for_int (20);
}

/* receiver made of callbacks */
static DexFuture *
fb_loop (DexFuture *f, gpointer data)
{
  FbArg *a = data;
  fb_got (a->b, a->idx, v_out_read (f, "receive"), "callback");
  __atomic_fetch_add (&a->b->started, 1, __ATOMIC_SEQ_CST);
  return dex_channel_receive (a->b->c);
}

static void
s_fibers (void)
{
  gint64 l0;
  Fb *b = g_new0 (Fb, 1);
  FbArg *args;
  GPtrArray *fs = g_ptr_array_new ();
  DexFuture *all;
  int where = v_below (&v_rng, 3), cb = 0;
  v_pool ();
  l0 = v_base ();
  b->cap = v_chance (&v_rng, 10) ? 0 : 1 + v_below (&v_rng, 4);
  b->ns = 1 + v_below (&v_rng, 5); b->nr = 1 + v_below (&v_rng, 5); b->per = 2 + v_below (&v_rng, 40);
  b->use_all = v_chance (&v_rng, 30);
  b->senders_left = b->ns; b->recv_left = b->nr;
  b->c = dex_channel_new (b->cap);
  args = g_new0 (FbArg, b->ns + b->nr);
  for (guint i = 0; i < b->ns + b->nr; i++)
    {
      gboolean snd = i < b->ns;
      DexScheduler *sc = where == 0 ? NULL : where == 1 ? v_pool () : v_chance (&v_rng, 50) ? NULL : v_pool ();
      args[i] = (FbArg) { b, snd ? i : i - b->ns };
      if (!snd && !b->use_all && v_chance (&v_rng, 30))
        { cb++; __atomic_fetch_add (&b->started, 1, __ATOMIC_SEQ_CST); g_ptr_array_add (fs, dex_future_then_loop (dex_channel_receive (b->c), fb_loop, &args[i], NULL)); }
      else
        g_ptr_array_add (fs, dex_scheduler_spawn (sc, 0, snd ? fb_sender : fb_receiver, &args[i], NULL));
    }
  all = dex_future_allv ((DexFuture **) fs->pdata, fs->len);
  v_run_until_settled (all, "fibers over a channel");
  for (guint s = 0; s < b->ns; s++) for (guint k = 0; k < b->per; k++) v_check (b->seen[s][k] == 1, "lost-value", "value %u of sender %u received %d times", k, s, b->seen[s][k]);
  for (guint i = 0; i < fs->len; i++)
    {
      int o = v_out_read (fs->pdata[i], "fiber");
      v_check (o == 20 || o == CLOSED, "wrong-outcome", "a fiber ended as %s", v_out_str (o));
    }
  v_count ("sends_that_waited", b->waits);
  v_sigf ("%u %u %u %u %d %d", b->ns, b->nr, b->cap, b->per, where, b->waits);
  v_sample ("%u sender and %u receiver fibers (%d as callbacks), capacity %u, %u each, %d sends waited", b->ns, b->nr, cb, b->cap, b->per, b->waits);
  dex_unref (all);
  for (guint i = 0; i < fs->len; i++) dex_unref (fs->pdata[i]);
  g_ptr_array_unref (fs);
  dex_unref (b->c);
  v_expect_live (l0, "fibers over a channel");
  g_free (args); g_free (b);
}

/* ================================================================ released while others look on */
/* pending operations of every kind when the last reference goes */
typedef struct { DexChannel *c; DexFuture *r[16], *s[16]; int nr, ns; DexPromise *it[16]; } Last;
static void
last_thread (guint idx, VRng *rng, gpointer data)
{
  Last *l = data;
  v_noise_point ();
  if (idx == 0) { dex_clear (&l->c); return; }
  if (idx == 1) for (int i = 0; i < l->ns; i++) { v_noise_point (); v_out_complete (l->it[i], 20 * (i + 1), TRUE); }
  if (idx == 2) for (int i = 0; i < l->nr; i++) if (i & 1) { v_noise_point (); dex_clear (&l->r[i]); }
}
static void
s_release (void)
{
  gint64 l0 = v_live ();
  Last *l = g_new0 (Last, 1);
  guint cap = 1 + v_below (&v_rng, 4);
  gboolean rx = v_chance (&v_rng, 50);
  l->c = dex_channel_new (cap);
  l->ns = 1 + v_below (&v_rng, 15);
  for (int i = 0; i < l->ns; i++) l->it[i] = dex_promise_new_cancellable ();
  if (rx) { l->nr = 1 + v_below (&v_rng, 15); for (int i = 0; i < l->nr; i++) l->r[i] = dex_channel_receive (l->c); }
  for (int i = 0; i < l->ns; i++) l->s[i] = dex_channel_send (l->c, dex_ref (l->it[i]));
  v_par (3, last_thread, l);
  for (int i = 0; i < l->ns; i++)
    {
      int st = send_state (l->s[i]), want = i < l->nr + (int) cap ? 1 : -1;
      v_check (st == want, st ? "send-state" : "pending-after-close", "send %d of %d is %s after the channel was released (%d receivers, capacity %u)", i, l->ns, sstr (st), l->nr, cap);
      v_eval (1);
    }
  for (int i = 0; i < l->nr; i++)
    if (l->r[i])
      {
        int o = v_out_read (l->r[i], "receive");
        v_check (i < l->ns ? o == 20 * (i + 1) : o == CLOSED, o == V_PENDING ? "pending-after-close" : "receive-state", "receive %d of %d is %s after the channel was released (%d sends)", i, l->nr, v_out_str (o), l->ns);
        v_eval (1);
      }
  v_event (l->ns + l->nr); v_sigf ("%d %d %u", l->ns, l->nr, cap);
  for (int i = 0; i < l->ns; i++) { dex_unref (l->s[i]); dex_unref (l->it[i]); }
  for (int i = 0; i < l->nr; i++) dex_clear (&l->r[i]);
  g_free (l);
  v_expect_live (l0, "channel released");
}

static const VScenario scenarios[] = {
  { "model", s_model, 100 },
  { "volume", s_volume, 100 },
  { "mpmc", s_mpmc, 100 },
  { "all-mt", s_all_mt, 100 },
  { "close", s_close, 100 },
  { "fibers", s_fibers, 100 },
  { "release", s_release, 100 },
  { NULL }
};
int main (int argc, char **argv) { return v_main (argc, argv, scenarios); }
