/* C02-C07: concurrent one-sided programs */
#include "hx.h"
static void *T[16]; static void *T2[16];
static long opn(const char *k, int d) { return sim_optint(k, d); }
/* ---------------------------------------------------------------- C02: concurrent accumulate */
static const int aop[6] = { ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP }; static const int esz[6] = { 4, 8, 4, 8, 8, 16 };
static void setv(void *p, int t, long i, double v, double w) { switch (t) { case 0: ((int *)p)[i] = v; break; case 1: ((long *)p)[i] = v; break; case 2: ((float *)p)[i] = v; break; case 3: ((double *)p)[i] = v; break; case 4: ((float *)p)[2 * i] = v; ((float *)p)[2 * i + 1] = w; break; case 5: ((double *)p)[2 * i] = v; ((double *)p)[2 * i + 1] = w; break; } }
static int eqv(void *p, int t, long i, double v, double w) { switch (t) { case 0: return ((int *)p)[i] == v; case 1: return ((long *)p)[i] == v; case 2: return ((float *)p)[i] == v; case 3: return ((double *)p)[i] == v; case 4: return ((float *)p)[2 * i] == v && ((float *)p)[2 * i + 1] == w; default: return ((double *)p)[2 * i] == v && ((double *)p)[2 * i + 1] == w; } }
static void accs(void) { int nel = 64, t, i, r; ARMCI_Malloc(T, nel * 16); memset(T[me], 0, nel * 16); ARMCI_Barrier();
  int ntypes = opn("types", 6), napi = 4; sim_set_cases(ntypes * napi); long c = sim_begin(); t = c % ntypes; if (ntypes == 2) t = t ? 3 : 0; int api = c / ntypes; int tgt = opn("target", n - 1), norg = opn("origins", n), ne = opn("elems", 2), reps = opn("reps", 1);
  for (i = 0; i < nel; i++) setv(T[me], t, i, 1000 + i + me, 7); ARMCI_Barrier();
  union { int i; long l; float f[2]; double d[2]; } sc; double a = me + 2, b = me + 1; switch (t) { case 0: sc.i = a; break; case 1: sc.l = a; break; case 2: sc.f[0] = a; break; case 3: sc.d[0] = a; break; case 4: sc.f[0] = a; sc.f[1] = b; break; case 5: sc.d[0] = a; sc.d[1] = b; break; }
  char buf[64 * 16], keep[64 * 16]; memset(buf, 0, sizeof buf); for (i = 0; i < nel; i++) setv(buf, t, i, i % 3 + 1, i % 2);
  memcpy(keep, buf, sizeof buf); int e = esz[t];
  /* elements touched at the target: contiguous 0..ne-1; strided/vector 0,2,4..; api 3: origin-dependent overlap */
  if (me < norg) for (r = 0; r < reps; r++) {
    if (api == 0) ARMCI_Acc(aop[t], &sc, buf, T[tgt], ne * e, tgt);
    else if (api == 1) { int ss[1] = { e }, ds[1] = { 2 * e }, ct[2] = { e, ne }; ARMCI_AccS(aop[t], &sc, buf, ss, T[tgt], ds, ct, 1, tgt); }
    else if (api == 2) { void *s[64], *d[64]; for (i = 0; i < ne; i++) { s[i] = buf + i * e; d[i] = (char *)T[tgt] + 2 * i * e; } armci_giov_t g = { s, d, ne, e }; g.src_ptr_array = s; g.dst_ptr_array = d; g.ptr_array_len = ne; g.bytes = e; ARMCI_AccV(aop[t], &sc, &g, 1, tgt); }
    else { armci_hdl_t h; ARMCI_INIT_HANDLE(&h); int ss[1] = { e }, ds[1] = { e }, ct[2] = { e, ne }; ds[0] = 2 * e; ARMCI_NbAccS(aop[t], &sc, buf, ss, (char *)T[tgt] + (me & 1) * 2 * e, ds, ct, 1, tgt, &h); ARMCI_Wait(&h); }
    CK(!memcmp(buf, keep, sizeof buf), "accumulate changed its source"); }
  memset(buf, 0x55, sizeof buf); ARMCI_Barrier();
  for (i = 0; i < nel; i++) { double v = 1000 + i + me, w = 7; int o; if (me == tgt) for (o = 0; o < norg; o++) { int k = -1; if (api == 0) k = i < ne ? i : -1; else if (api < 3) k = (i % 2 == 0 && i / 2 < ne) ? i / 2 : -1; else { int j = i - (o & 1) * 2; k = (j >= 0 && j % 2 == 0 && j / 2 < ne) ? j / 2 : -1; } if (k < 0) continue; double x = k % 3 + 1, y = k % 2, A = o + 2, B = o + 1; if (t < 4) v += reps * A * x; else { v += reps * (A * x - B * y); w += reps * (A * y + B * x); } }
    CK(eqv(T[me], t, i, v, w), "accumulate type %d api %d: element %d of rank %d is wrong after %d concurrent accumulates", t, api, i, me, norg); }
  ARMCI_Barrier(); }
/* ---------------------------------------------------------------- C03: read-modify-write */
struct rec { long s, e, v, old; }; 
static void rmw(void) { ARMCI_Malloc(T, 64); memset(T[me], 0, 64); ARMCI_Barrier(); int K = opn("ops", 1), mixed = opn("mixed", 0); struct { struct rec r[16][4]; volatile long done; } *S = sim_shared();
  sim_set_cases(4 * (mixed ? 1 : 2)); long c = sim_begin(); int kind = c % 4, host = c / 4 ? n - 1 : 0, i, j, k; int sw = kind < 2, lg = kind & 1; char *loc = (char *)T[host] + 16;
  if (me < opn("origins", n)) for (i = 0; i < K; i++) { struct rec *r = &S->r[me][i]; r->v = sw ? 100 + me * 10 + i : 1 + me; r->s = sim_now(); int iv = sw ? (int)r->v : -7; long lv = sw ? r->v : -7; int rc;
    if (sw) rc = ARMCI_Rmw(lg ? ARMCI_SWAP_LONG : ARMCI_SWAP, lg ? (void *)&lv : (void *)&iv, loc, 0, host); else rc = ARMCI_Rmw(lg ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_FETCH_AND_ADD, lg ? (void *)&lv : (void *)&iv, loc, (int)r->v, host);
    CK(rc == 0, "rmw returned %d", rc); r->old = lg ? lv : iv; r->e = sim_now(); }
  ARMCI_Barrier(); sim_barrier();
  long fin = lg ? *(long *)((char *)T[me] + 16) : *(int *)((char *)T[me] + 16);
  for (i = 0; i < 64; i++) if ((me != host || i < 16 || i >= (lg ? 24 : 20)) && ((char *)T[me])[i]) sim_fail("rmw changed byte %d of rank %d", i, me);
  if (me == host) { struct rec *all[64]; int m = 0, o = opn("origins", n); for (i = 0; i < o; i++) for (j = 0; j < K; j++) all[m++] = &S->r[i][j];
    /* chain: start from 0, follow the operation whose old value is current */
    long cur = 0; int used[64] = { 0 }, pos[64]; for (k = 0; k < m; k++) { int f = -1; for (i = 0; i < m; i++) if (!used[i] && all[i]->old == cur) { CK(f < 0, "%s: two operations both returned %ld", sw ? "swap" : "fetch-and-add", cur); f = i; } CK(f >= 0, "%s: no operation returned the intermediate value %ld", sw ? "swap" : "fetch-and-add", cur); used[f] = 1; pos[f] = k; cur = sw ? all[f]->v : cur + all[f]->v; }
    CK(cur == fin, "final value %ld instead of %ld", fin, cur);
    for (i = 0; i < m; i++) for (j = 0; j < m; j++) if (all[i]->e < all[j]->s) CK(pos[i] < pos[j], "rmw order contradicts real time"); }
  sim_barrier(); ARMCI_Barrier(); }
/* ---------------------------------------------------------------- C04: mutexes */
struct mx { volatile int holder[8]; volatile long order[8]; long cnt[8]; };
static void crit(int m, int host, int owner_of_data) { struct mx *S = sim_shared(); int id = host * 2 + m; long v = -1, w;
  ARMCI_Lock(m, host); if (S->holder[id]) sim_fail("mutex %d of host %d held by rank %d and rank %d at once", m, host, S->holder[id] - 1, me); S->holder[id] = me + 1; sim_yield();
  ARMCI_Get((long *)T[owner_of_data] + id, &v, 8, owner_of_data); if (v != S->cnt[id]) sim_fail("mutex %d of host %d: rank %d sees counter %ld instead of %ld", m, host, me, v, S->cnt[id]); w = v + 1; ARMCI_Put(&w, (long *)T[owner_of_data] + id, 8, owner_of_data); S->cnt[id]++; ARMCI_Fence(owner_of_data);
  if (S->holder[id] != me + 1) sim_fail("mutex %d of host %d: rank %d lost the mutex to rank %d", m, host, me, S->holder[id] - 1); S->holder[id] = 0; ARMCI_Unlock(m, host); }
static void mutex(void) { ARMCI_Malloc(T, 128); memset(T[me], 0, 128); ARMCI_Barrier(); int K = opn("ops", 1);
  sim_set_cases(opn("cases", 10)); long c = sim_begin(); int i, nm = (c == 5) ? (me == 1 ? 2 : 0) : 2; CK(ARMCI_Create_mutexes(nm) == 0, "create_mutexes failed");
  for (i = 0; i < K; i++) switch (c) {
    case 0: crit(0, 0, 0); break; case 1: crit(1, n - 1, 0); break; case 2: crit(0, 0, n - 1); break;
    case 3: crit(me & 1, 1, 0); crit(!(me & 1), 1, 0); break;             /* two mutexes of one host */
    case 4: crit(0, me == 0 ? 0 : 1, 0); crit(0, 0, 0); break;            /* equal numbers on different hosts */
    case 5: crit(1, 1, 1); crit(0, 1, 1); break;                          /* uneven counts */
    case 6: ARMCI_Lock(0, 0); crit(1, 1, 1); ARMCI_Unlock(0, 0); break;   /* nested */
    case 7: if (i) break; crit(0, me, me); ARMCI_Barrier(); CK(ARMCI_Destroy_mutexes() == 0, "destroy"); CK(ARMCI_Create_mutexes(me == 0 ? 1 : 0) == 0, "create"); crit(0, 0, 0); break;
    case 8: case 9: { int h = c == 9, who = (c == 9 ? n - 1 - me : me) % 3; /* ordered nesting: holders of 0 may wait for 1 */
      if (who == 0) { ARMCI_Lock(0, h); sim_yield(); crit(1, h, 0); ARMCI_Unlock(0, h); } else if (who == 1) crit(1, h, 0); else crit(0, h, n - 1); break; } }
  ARMCI_Barrier(); CK(ARMCI_Destroy_mutexes() == 0, "destroy_mutexes failed"); ARMCI_Barrier(); }
/* ---------------------------------------------------------------- C05: fence, barrier, order */
struct fe { volatile long flag, enter[16], leave[16]; };
static void wr(int how, long *v, long *dst, int tgt) { /* different ways of writing value *v (memory holds 0) */
  long one = 1; double sc; (void)sc;
  switch (how) { case 0: ARMCI_Put(v, dst, 8, tgt); break; case 1: ARMCI_Acc(ARMCI_ACC_LNG, &one, v, dst, 8, tgt); break;
    case 2: { long b[4] = { v[0], v[0], v[0], v[0] }; int ss[1] = { 8 }, ds[1] = { 16 }, ct[2] = { 8, 2 }; ARMCI_PutS(b, ss, dst, ds, ct, 1, tgt); break; }
    case 3: { void *s[2] = { v, v }, *d[2] = { dst, dst + 2 }; armci_giov_t g; g.src_ptr_array = s; g.dst_ptr_array = d; g.ptr_array_len = 2; g.bytes = 8; ARMCI_PutV(&g, 1, tgt); break; }
    case 4: { int ss[1] = { 8 }, ds[1] = { 16 }, ct[2] = { 8, 2 }; long b[2] = { *v, *v }; ARMCI_AccS(ARMCI_ACC_LNG, &one, b, ss, dst, ds, ct, 1, tgt); break; }
    case 5: { void *s[2] = { v, v }, *d[2] = { dst, dst + 2 }; armci_giov_t g; g.src_ptr_array = s; g.dst_ptr_array = d; g.ptr_array_len = 2; g.bytes = 8; ARMCI_AccV(ARMCI_ACC_LNG, &one, &g, 1, tgt); break; }
    case 6: { armci_hdl_t h; ARMCI_INIT_HANDLE(&h); ARMCI_NbPut(v, dst, 8, tgt, &h); ARMCI_Wait(&h); break; }
    case 7: ARMCI_PutValueLong(*v, dst, tgt); break; } }
#define NWAYS 8
static void fence(void) { ARMCI_Malloc(T, 128); memset(T[me], 0, 128); ARMCI_Barrier(); struct fe *S = sim_shared(); int nf = 4;
  sim_set_cases(NWAYS * nf * 2); long c = sim_begin(); int how = c % NWAYS, f = (c / NWAYS) % nf, tgt = c / (NWAYS * nf) ? n - 1 : 1, reader = n - 1 - (tgt == n - 1); long v = 0x1122334455667788, x = 0; if (n == 2) { tgt = 1; reader = 1; }
  if (f == 0 || f == 1) { /* fence, then tell the reader and the owner */
    if (me == 0) { wr(how, &v, T[tgt], tgt); v = -1; if (f == 0) ARMCI_Fence(tgt); else ARMCI_AllFence(); S->flag = 1; sim_yield(); }
    else if (me == reader) { sim_wait_ge(&S->flag, 1); ARMCI_Get(T[tgt], &x, 8, tgt); CK(x == 0x1122334455667788, "write way %d, fence kind %d: a get causally after the fence returned %lx", how, f, x); if (how >= 2 && how <= 5) { ARMCI_Get((long *)T[tgt] + 2, &x, 8, tgt); CK(x == 0x1122334455667788, "write way %d: second element not there after the fence", how); } } }
  else if (f == 2) { /* barrier: everybody sees everybody's writes in local memory */
    wr(how, &v, (long *)T[(me + 1) % n] + 0, (me + 1) % n); v = 5; ARMCI_Barrier(); CK(((long *)T[me])[0] == 0x1122334455667788, "write way %d: not visible to the owner after a barrier", how); CK((how < 2 || how > 5 || ((long *)T[me])[2] == 0x1122334455667788), "write way %d: second element not visible after a barrier", how); }
  else { /* program order of one origin on one location; the target is read back by a get of the same origin, then by all */
    if (me == 0) { long a = 1, b = 2, d = 3, one = 1, y = 0; if (how == 0) { ARMCI_Put(&a, T[tgt], 8, tgt); ARMCI_Put(&b, T[tgt], 8, tgt); y = 2; } else if (how == 1) { ARMCI_Put(&a, T[tgt], 8, tgt); ARMCI_Acc(ARMCI_ACC_LNG, &one, &b, T[tgt], 8, tgt); y = 3; } else if (how == 2) { ARMCI_Acc(ARMCI_ACC_LNG, &one, &b, T[tgt], 8, tgt); ARMCI_Put(&a, T[tgt], 8, tgt); y = 1; } else if (how == 3) { wr(2, &a, T[tgt], tgt); wr(0, &d, T[tgt], tgt); y = 3; } else if (how == 4) { wr(0, &d, T[tgt], tgt); wr(2, &b, T[tgt], tgt); y = 2; } else if (how == 5) { wr(5, &d, T[tgt], tgt); wr(3, &b, T[tgt], tgt); y = 2; } else if (how == 6) { wr(3, &a, T[tgt], tgt); wr(4, &b, T[tgt], tgt); y = 3; } else { wr(4, &a, T[tgt], tgt); wr(1, &b, T[tgt], tgt); wr(7, &d, T[tgt], tgt); y = 3; }
      ARMCI_Get(T[tgt], &x, 8, tgt); CK(x == y, "order way %d: a get after two writes of the same process returned %ld instead of %ld", how, x, y); }
    ARMCI_Barrier(); }
  ARMCI_Barrier(); }
static void barrier(void) { struct fe *S = sim_shared(); ARMCI_Group g; int lst[16], i, k = 0; for (i = 0; i < n; i++) if (i != 1) lst[k++] = i; ARMCI_Group_create(k, lst, &g);
  sim_set_cases(5); long c = sim_begin(); int part = 1, reps = 2, r; if (c == 3) part = me != 1;
  if (part) for (r = 0; r < reps; r++) { S->enter[me * 2 + r] = sim_now(); switch (c) { case 0: ARMCI_Barrier(); break; case 1: armci_msg_barrier(); break; case 2: comex_barrier(COMEX_GROUP_WORLD); break; case 3: comex_barrier(g); break; case 4: { int z = me; armci_msg_igop(&z, 1, "+"); } break; }
    for (i = 0; i < n; i++) if ((c != 3 || i != 1) && !S->enter[i * 2 + r]) sim_fail("rank %d left barrier %d (kind %ld) before rank %d entered it", me, r, c, i); }
  sim_barrier(); ARMCI_Barrier(); }
/* ---------------------------------------------------------------- C07: all small programs */
static int A7; static char *big;
static void prim(int a, int k) { int nx = (me + 1) % n, pv = (me + n - 1) % n; long one = 1, x; int sz = sim_optint("size", 200); char *b = big;
  switch (a) { case 0: ARMCI_Put(b, (char *)T[nx] + 64, sz, nx); break; case 1: ARMCI_Get((char *)T[nx] + 64, b, sz, nx); break; case 2: ARMCI_Acc(ARMCI_ACC_LNG, &one, b, (char *)T[nx] + 512, sz / 8 * 8, nx); break;
    case 3: ARMCI_Lock(0, 0); ARMCI_Unlock(0, 0); break; case 4: ARMCI_AllFence(); break; case 5: x = 1; ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &x, T[pv], 1, pv); break;
    case 6: { int ss[1] = { sz / 4 + 8 }, ds[1] = { sz / 4 + 16 }, ct[2] = { sz / 4, 3 }; ARMCI_PutS(b, ss, (char *)T[pv] + 64, ds, ct, 1, pv); break; }
    case 7: { int ss[1] = { sz / 4 + 8 }, ds[1] = { sz / 4 + 16 }, ct[2] = { sz / 4, 3 }; ARMCI_GetS((char *)T[pv] + 64, ds, b, ss, ct, 1, pv); break; }
    case 8: { void *s[2] = { b, b + 16 }, *d[2] = { (char *)T[nx] + 64, (char *)T[nx] + 80 }; armci_giov_t g; g.src_ptr_array = s; g.dst_ptr_array = d; g.ptr_array_len = 2; g.bytes = 16; ARMCI_AccV(ARMCI_ACC_LNG, &one, &g, 1, nx); break; }
    case 9: { armci_hdl_t h1, h2; ARMCI_INIT_HANDLE(&h1); ARMCI_INIT_HANDLE(&h2); ARMCI_NbPut(b, (char *)T[nx] + 64, sz, nx, &h1); ARMCI_NbGet((char *)T[pv] + 64, b + 1024, sz, pv, &h2); ARMCI_Wait(&h2); ARMCI_Wait(&h1); break; }
    case 10: { void *s[2] = { (char *)T[nx] + 64, (char *)T[nx] + 80 }, *d[2] = { b, b + 16 }; armci_giov_t g; g.src_ptr_array = s; g.dst_ptr_array = d; g.ptr_array_len = 2; g.bytes = 16; ARMCI_GetV(&g, 1, nx); break; }
    case 11: ARMCI_Lock(0, nx); ARMCI_Put(b, (char *)T[nx] + 64, 8, nx); ARMCI_Fence(nx); ARMCI_Unlock(0, nx); break; } }
static void prog(void) { ARMCI_Malloc(T, 4096); memset(T[me], 0, 4096); big = calloc(1, 4096); ARMCI_Create_mutexes(1); ARMCI_Barrier(); A7 = opn("alpha", 12); int len = opn("len", 1), who = opn("who", n), i, fin = opn("fin", 1); long nc = 1; for (i = 0; i < len * who; i++) nc *= A7; sim_set_cases(nc); long c = sim_begin();
  for (i = 0; i < len * who; i++) { int a = c % A7; c /= A7; if (i / len == me) prim(a, i); }
  ARMCI_Barrier(); if (fin) { ARMCI_Destroy_mutexes(); ARMCI_Free(T[me]); ARMCI_Barrier(); ARMCI_Finalize(); MPI_Finalize(); sim_quiet(); if (me == 0) { for (i = 0; i < 300; i++) sim_yield(); CK(sim_pending_msgs() == 0, "%d messages were sent and never received", sim_pending_msgs()); for (i = 0; i < sim_np(); i++) CK(sim_live_requests(i) == 0, "rank %d leaves %d requests behind", i, sim_live_requests(i)); CK(sim_live_shm() == 0, "%d shared-memory objects left after finalize", sim_live_shm()); CK(sim_live_sems() == 0, "%d semaphores left after finalize", sim_live_sems()); } sim_barrier(); } }
void scen_main(int r, int np) { const char *s = sim_scenario(); boot(); if (!strcmp(s, "rmw")) rmw(); else if (!strcmp(s, "accs")) accs(); else if (!strcmp(s, "mutex")) mutex(); else if (!strcmp(s, "fence")) fence(); else if (!strcmp(s, "barrier")) barrier(); else if (!strcmp(s, "prog")) prog(); }
