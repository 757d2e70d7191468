/* C09: collective memory.  Case = sequence of allocations and frees */
#include "hx.h"
#define MAXL 6
struct blk { void *p[16]; long sz[16]; int grp, live, id; };
static ARMCI_Group G; static int glst[16], gk, gpos = -1;
static long size_of(int pat, int rk) { switch (pat) { case 0: return 64; case 1: return rk == 1 ? 0 : 48; case 2: return rk == n - 1 ? 200 : 0; case 3: return 8 + 8 * rk; case 4: return 5000; default: return 16 * (n - rk); } }
static int members(struct blk *b) { return b->grp ? gk : n; }
static int world_of(struct blk *b, int i) { return b->grp ? glst[i] : i; }
static int part(struct blk *b) { return b->grp ? gpos >= 0 : 1; }
static int posn(struct blk *b) { return b->grp ? gpos : me; }
static void sync_(struct blk *b) { if (b->grp) comex_barrier(G); else ARMCI_Barrier(); }
static void alloc(struct blk *b, int pat, int grp, int id) { int i; b->grp = grp; b->live = 1; b->id = id; if (!part(b)) return; int k = members(b); for (i = 0; i < k; i++) { b->sz[i] = size_of(pat, world_of(b, i)); b->p[i] = (void *)0x55; }
  int rc = grp ? ARMCI_Malloc_group(b->p, b->sz[posn(b)], &G) : ARMCI_Malloc(b->p, b->sz[posn(b)]); CK(rc == 0, "allocation returned %d", rc);
  for (i = 0; i < k; i++) CK(b->p[i] != 0 || b->sz[i] == 0, "no address of member %d (size %ld)", i, b->sz[i]);
  CK(((uintptr_t)b->p[posn(b)] & 7) == 0, "misaligned allocation");
  /* the same table everywhere */
  void *q[16]; memcpy(q, b->p, sizeof q); long x[16]; for (i = 0; i < k; i++) x[i] = (long)q[i]; if (grp) { armci_msg_group_lgop(x, k, "max", &G); } else armci_msg_lgop(x, k, "max"); for (i = 0; i < k; i++) CK(x[i] == (long)q[i], "address tables differ between processes");
  if (b->sz[posn(b)]) memset(b->p[posn(b)], 0x11 * (id + 1) + me, b->sz[posn(b)]); }
static void verify(struct blk *b, int nb, struct blk *all) { int i, j, o; if (!part(b)) return; int k = members(b);
  for (j = 0; j < nb; j++) if (&all[j] != b && all[j].live && part(&all[j])) for (i = 0; i < k; i++) for (o = 0; o < members(&all[j]); o++) if (world_of(b, i) == world_of(&all[j], o) && b->sz[i] && all[j].sz[o]) { char *x = b->p[i], *y = all[j].p[o]; CK(x + b->sz[i] <= y || y + all[j].sz[o] <= x, "two live allocations overlap on rank %d", world_of(b, i)); }
  sync_(b); int p = posn(b); /* everybody writes one byte range of the next member's block, then everything is read back */
  int nx = (p + 1) % k; long s = b->sz[nx]; char v[16]; if (s >= 16) { memset(v, 0x80 + me, 8); ARMCI_Put(v, (char *)b->p[nx] + s - 8, 8, world_of(b, nx)); long one = 1, two = 2; ARMCI_Acc(ARMCI_ACC_LNG, &one, &two, b->p[nx], 8, world_of(b, nx)); } sync_(b);
  for (i = 0; i < k; i++) if (b->sz[i]) { unsigned char *t = malloc(b->sz[i]); ARMCI_Get(b->p[i], t, b->sz[i], world_of(b, i)); long m; unsigned char f = 0x11 * (b->id + 1) + world_of(b, i); memset(&m, f, 8); if (b->sz[i] >= 16) m += 2; CK(!memcmp(t, &m, 8), "first word of an allocation of rank %d is wrong", world_of(b, i)); for (j = 8; j < b->sz[i] - 8; j++) CK(t[j] == f, "allocation %d of rank %d changed at byte %d", b->id, world_of(b, i), j); if (b->sz[i] >= 16) for (j = b->sz[i] - 8; j < b->sz[i]; j++) CK(t[j] == 0x80 + world_of(b, (i + k - 1) % k), "put into allocation %d of rank %d got lost", b->id, world_of(b, i)); free(t); }
  sync_(b); int q = posn(b); if (b->sz[q]) { unsigned char f = 0x11 * (b->id + 1) + me; memset(b->p[q], f, b->sz[q]); } sync_(b); }
static void rel(struct blk *b) { b->live = 0; if (!part(b)) return; int rc = b->grp ? ARMCI_Free_group(b->p[posn(b)], &G) : ARMCI_Free(b->p[posn(b)]); CK(rc == 0, "free returned %d", rc); }
void scen_main(int r, int np) { boot(); int len = sim_optint("len", 3), A = sim_optint("alpha", 9), fin = sim_optint("fin", 1), i, k; static struct blk B[MAXL]; int nb = 0; for (i = n - 1; i >= 0; i -= 2) { if (i == me) gpos = gk; glst[gk++] = i; }
  if (gpos >= 0) ARMCI_Group_create(gk, glst, &G); ARMCI_Barrier();
  static int base_maps; (void)base_maps; int maps0[16], shm0; long cases = 1; for (i = 0; i < len; i++) cases *= A; sim_set_cases(cases); long c = sim_begin(); shm0 = sim_live_shm(); for (i = 0; i < np; i++) maps0[i] = sim_mapped(i); sim_barrier();
  for (k = 0; k < len; k++) { int a = c % A; c /= A;
    if (a < 6) { int live = 0; for (i = 0; i < nb; i++) live += B[i].live; if (live < 4 && nb < MAXL) { alloc(&B[nb], a < 4 ? a : 3, a == 4, nb); if (a == 5) { void *l = ARMCI_Malloc_local(100); CK(l, "local allocation"); memset(l, 1, 100); CK(ARMCI_Free_local(l) == 0, "free_local"); } nb++; verify(&B[nb - 1], nb, B); } }
    else { int f = -1; if (a == 6) { for (i = 0; i < nb; i++) if (B[i].live) { f = i; break; } } else if (a == 7) { for (i = nb - 1; i >= 0; i--) if (B[i].live) { f = i; break; } } else { int seen = 0; for (i = 0; i < nb; i++) if (B[i].live && seen++ == 1) { f = i; break; } } if (f >= 0) rel(&B[f]); }
    for (i = 0; i < nb; i++) if (B[i].live) verify(&B[i], nb, B); }
  for (i = nb - 1; i >= 0; i--) if (B[i].live) rel(&B[i]);
  ARMCI_Barrier(); sim_barrier();
  if (!fin) return;
  if (me == 0) { CK(sim_live_shm() == shm0, "%d shared-memory objects after all allocations were freed, %d before", sim_live_shm(), shm0); for (i = 0; i < n; i++) CK(sim_mapped(i) <= maps0[i], "rank %d has %ld bytes of shared memory mapped after all allocations were freed, %d before", i, sim_mapped(i), maps0[i]); }
  if (gpos >= 0) ARMCI_Group_free(&G); sim_barrier(); ARMCI_Barrier(); ARMCI_Finalize(); MPI_Finalize(); sim_barrier();
  if (me == 0) { for (i = 0; i < 300; i++) sim_yield(); CK(sim_live_shm() == 0, "%d shared-memory objects left after finalize", sim_live_shm()); CK(sim_live_sems() == 0, "%d semaphores left after finalize", sim_live_sems()); CK(sim_pending_msgs() == 0, "%d messages never received", sim_pending_msgs()); }
  sim_barrier(); }
