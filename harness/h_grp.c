/* C08: groups.  Case = ordered list of distinct members */
#include "hx.h"
static int nlists(int n) { int k, i, t = 0; for (k = 1; k <= n; k++) { int p = 1; for (i = 0; i < k; i++) p *= n - i; t += p; } return t; }
static int nth_list(int n, int c, int *out) { int k, i, j; for (k = 1;; k++) { int p = 1; for (i = 0; i < k; i++) p *= n - i; if (c < p) break; c -= p; }
  int used[16] = { 0 }; for (i = 0; i < k; i++) { int d = c % (n - i); c /= n - i; for (j = 0;; j++) if (!used[j] && d-- == 0) break; used[j] = 1; out[i] = j; } return k; }
struct S { volatile long enter[8][16], leave[8][16], cnt; volatile long bad; };
static void check_map(ARMCI_Group g, int k, int *lst, int pos) { int i, r = -5, s = -5; ARMCI_Group_rank(&g, &r); ARMCI_Group_size(&g, &s); CK(r == pos, "rank in group is %d instead of %d", r, pos); CK(s == k, "size of group is %d instead of %d", s, k);
  for (i = 0; i < k; i++) { CK(ARMCI_Absolute_id(&g, i) == lst[i], "member %d of the group is world rank %d instead of %d", i, ARMCI_Absolute_id(&g, i), lst[i]); int w = -1; comex_group_translate_world(g, i, &w); CK(w == lst[i], "translate_world"); }
  MPI_Comm cm; int cr, cs; comex_group_comm(g, &cm); MPI_Comm_rank(cm, &cr); MPI_Comm_size(cm, &cs); CK(cr == pos && cs == k, "communicator of the group has rank %d size %d", cr, cs); }
static void gbarrier(ARMCI_Group g, int k, int *lst, int slot, int kind) { struct S *S = sim_shared(); int i; S->enter[slot][me] = sim_now(); if (kind == 0) armci_msg_group_barrier(&g); else if (kind == 1) comex_barrier(g); else { int z = 1; armci_msg_group_igop(&z, 1, "+", &g); CK(z == k, "group sum of ones is %d instead of %d", z, k); }
  for (i = 0; i < k; i++) if (!S->enter[slot][lst[i]]) sim_fail("rank %d left a group barrier (kind %d) before member %d entered", me, kind, lst[i]); }
static int cxw;   /* comex calls with group ranks (1) or through the world (0) */
static void work(ARMCI_Group g, int k, int *lst, int pos, int slot) { int i, j; void *T[16]; 
  long s[3] = { me + 1, 2 * me, -me }, w[3] = { 0, 0, 0 }; for (i = 0; i < k; i++) { w[0] += lst[i] + 1; w[1] += 2 * lst[i]; w[2] -= lst[i]; } armci_msg_group_lgop(s, 3, "+", &g); for (i = 0; i < 3; i++) CK(s[i] == w[i], "group sum[%d] is %ld instead of %ld", i, s[i], w[i]);
  double d = me + 0.5, mx = -1; for (i = 0; i < k; i++) if (lst[i] + 0.5 > mx) mx = lst[i] + 0.5; armci_msg_group_dgop(&d, 1, "max", &g); CK(d == mx, "group max");
  for (j = 0; j < k; j++) { int b[4] = { me * 100, me * 100 + 1, 7, me }; armci_msg_group_bcast_scope(SCOPE_ALL, b, sizeof b, lst[j], &g); CK(b[0] == lst[j] * 100 && b[1] == lst[j] * 100 + 1 && b[3] == lst[j], "group broadcast from member %d delivered %d", j, b[0]); }
  int sz = pos == 1 ? 0 : 64; CK(ARMCI_Malloc_group(T, 64 + 8 * pos, &g) == 0, "group malloc failed"); for (i = 0; i < k; i++) CK(T[i], "no address of member %d", i); memset(T[pos], 0, 64 + 8 * pos); (void)sz;
  gbarrier(g, k, lst, slot, 0);
  int nx = (pos + 1) % k; long v = 1000 + me, one = 1, x = -1; ARMCI_Put(&v, T[nx], 8, lst[nx]); if (cxw) comex_put(&v, (long *)T[nx] + 1, 8, nx, g); else ARMCI_Put(&v, (long *)T[nx] + 1, 8, lst[nx]); for (i = 0; i < k; i++) if (cxw) comex_acc(COMEX_ACC_LNG, &one, &v, (long *)T[i] + 2, 8, i, g); else ARMCI_Acc(ARMCI_ACC_LNG, &one, &v, (long *)T[i] + 2, 8, lst[i]); long one2 = 1; if (cxw) comex_rmw(COMEX_FETCH_AND_ADD_LONG, &x, (long *)T[0] + 3, 1, 0, g); else ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &x, (long *)T[0] + 3, 1, lst[0]); (void)one2; CK(x >= 0 && x < k, "group rmw returned %ld", x);
  comex_fence_all(g); gbarrier(g, k, lst, slot + 1, 1);
  int pv = (pos + k - 1) % k; long *t = T[pos], sum = 0; for (i = 0; i < k; i++) sum += 1000 + lst[i]; CK(t[0] == 1000 + lst[pv], "ARMCI put into group memory: %ld instead of %d", t[0], 1000 + lst[pv]); CK(t[1] == 1000 + lst[pv], "comex put with group rank: %ld instead of %d", t[1], 1000 + lst[pv]); CK(t[2] == sum, "group accumulate: %ld instead of %ld", t[2], sum); if (pos == 0) CK(t[3] == k, "group rmw total %ld", t[3]);
  for (i = 0; i < k; i++) { long y = -1; if (cxw) comex_get((long *)T[i] + 2, &y, 8, i, g); else ARMCI_Get((long *)T[i] + 2, &y, 8, lst[i]); CK(y == sum, "group get"); }
  gbarrier(g, k, lst, slot + 2, 2); CK(ARMCI_Free_group(T[pos], &g) == 0, "group free failed"); }
void scen_main(int r, int np) { boot(); const char *sc = sim_scenario(); int N = nlists(n), i, j; void *W[16]; ARMCI_Malloc(W, 256); memset(W[me], 0, 256); ARMCI_Barrier(); struct S *S = sim_shared(); cxw = sim_optint("cx", 1); int nonmem = sim_optint("nonmembers", 0);
  sim_set_cases(N * 2); long c = sim_begin(); int lst[16], oth[16], k, m = 0, pos = -1, opos = -1; int conc = c % 2; c /= 2; k = nth_list(n, c, lst); for (i = 0; i < n; i++) { for (j = 0; j < k; j++) if (lst[j] == i) break; if (j == k) oth[m++] = i; } for (i = 0; i < k; i++) if (lst[i] == me) pos = i; for (i = 0; i < m; i++) if (oth[i] == me) opos = i; (void)sc; (void)r; (void)np;
  ARMCI_Group g, g2, h; 
  if (pos >= 0 || nonmem) ARMCI_Group_create(k, lst, &g);
  if (pos >= 0) { check_map(g, k, lst, pos); work(g, k, lst, pos, 0);
    /* a child: every second member in reverse order */
    int cl[16], cw[16], ck = 0, cp = -1; for (i = k - 1; i >= 0; i -= 2) { if (i == pos) cp = ck; cw[ck] = lst[i]; cl[ck++] = i; }
    if (cp >= 0) { ARMCI_Group_create_child(ck, cl, &h, &g); check_map(h, ck, cw, cp); work(h, ck, cw, cp, 3); ARMCI_Group_free(&h); } }
  else if (conc) { /* the others form their own group at the same time */
    ARMCI_Group_create(m, oth, &g2); check_map(g2, m, oth, opos); int s = 1; armci_msg_group_igop(&s, 1, "+", &g2); CK(s == m, "sum over the other group is %d instead of %d", s, m); long v = me + 1; ARMCI_Put(&v, (long *)W[(me + 1) % n] + 8 + me, 8, (me + 1) % n); ARMCI_Group_free(&g2); }
  else { long v = me + 1, one = 1; ARMCI_Acc(ARMCI_ACC_LNG, &one, &v, (long *)W[lst[0]], 8, lst[0]); S->cnt++; }
  if (pos >= 0) ARMCI_Group_free(&g);
  ARMCI_Barrier();
  long w = 0; if (!conc && me == lst[0]) for (i = 0; i < m; i++) w += oth[i] + 1; CK(((long *)W[me])[0] == w, "accumulates of non-members: %ld instead of %ld", ((long *)W[me])[0], w);
  int z = 1; armci_msg_igop(&z, 1, "+"); CK(z == n, "world sum after group work is %d", z); ARMCI_Barrier(); }
