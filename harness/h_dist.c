/* G10: every inquiry describes one partition of the index space */
#include "hga.h"
static int K, nd, d[MD], var;
static void whole(int *lo, int *hi) { int i; for (i = 0; i < nd; i++) { lo[i] = 0; hi[i] = d[i] - 1; } }
/* NGA_Proc_topology and GA_Get_proc_grid report in Fortran order also in C (the repository's own test ga-mpi.c relies on it) */
static void rev(int *v) { int i; for (i = 0; i < nd / 2; i++) { int x = v[i]; v[i] = v[nd - 1 - i]; v[nd - 1 - i] = x; } }
static unsigned long hsh; static void H(long v) { hsh = (hsh ^ (unsigned long)v) * 0x100000001b3UL; hsh ^= hsh >> 29; }
/* what is observable of a distribution: blocks and their owners */
static unsigned long sig(int g, int k) { unsigned long v = 7; int np = P, b, i, lo[MD], hi[MD], nb, nbk[MD]; if (k == D_GROUP) { np = 0; for (i = 0; i < P; i++) np += in_group(k, P, i); } nb = BLOCKY(k) ? GA_Total_blocks(g) : np; GA_Nblock(g, nbk);
  for (b = 0; b < nb; b++) { NGA_Distribution(g, b, lo, hi); if (!vol(nd, lo, hi)) continue; int owner = b; if (k == D_BC) owner = b % P; else if (BLOCKY(k)) { int pg[MD], pi[MD], bi[MD], q, rem = b; GA_Get_proc_grid(g, pg); rev(pg); for (i = nd - 1; i >= 0; i--) { bi[i] = rem % nbk[i]; rem /= nbk[i]; } owner = -1; for (q = 0; q < P; q++) { GA_Get_proc_index(g, q, pi); int ok = 1; for (i = 0; i < nd; i++) if (pi[i] != bi[i] % pg[i]) ok = 0; if (ok) owner = q; } }
    v = v * 31 + owner + 1; for (i = 0; i < nd; i++) v = (v * 131 + lo[i]) * 137 + hi[i]; } return v; }
static void compare(int g, int k, int v, int type, const char *w) { int j; for (j = 0; j < 5; j++) { int k2 = j < 3 ? k : j == 3 ? (k + 1) % ND : (k + 5) % ND, v2 = j == 0 || j == 2 ? v ^ 1 : v, h; gvx = j == 1 || j == 2; if ((k2 == D_GROUP) != (k == D_GROUP) || (k2 >= D_GHOST && k2 != D_GROUP && !gvx && !kind_ok(k2, nd, d, v2)) || ((k2 == D_GHOST || k2 == D_GHIRREG) && gvx)) { gvx = 0; continue; } h = mk(k2, type, nd, d, v2, "cmp"); gvx = 0;
    int eq = sig(g, k) == sig(h, k2), r = GA_Compare_distr(g, h), r2 = GA_Compare_distr(h, g); if (!r && !eq) sim_fail("%s: compare_distr calls it equal to %s var %d, which has other blocks or owners", w, DN[k2], v2); if (r != r2) sim_fail("%s: compare_distr with %s var %d depends on the order", w, DN[k2], v2); if (r && eq && k == k2 && j == 1 && !BLOCKY(k)) sim_fail("%s: compare_distr calls an equal distribution different", w); sim_count(3, 1); GA_Destroy(h); } }
static void one(void) { int i, s[MD], lo[MD], hi[MD], zl[MD], zh[MD], ld[MD], b; long N = 1, k; for (i = 0; i < nd; i++) N *= d[i]; whole(zl, zh); hsh = 1469598103934665603UL;
  if (!in_group(K, P, my)) return; int np = P; if (K == D_GROUP) { np = 0; for (i = 0; i < P; i++) np += in_group(K, P, i); }
  int type = TY[(d[0] + nd + var) % 7], t = (d[0] + nd + var) % 7; int g = mk(K, type, nd, d, var, "dist"), gd = GA_Duplicate(g, "dup"); char w[100]; sprintf(w, "%s var %d dims (%s)", DN[K], var, sv(nd, d));
#define F(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_fail("%s: %s", w, _b); } while (0)
  { int ty, n2, dd[MD]; NGA_Inquire(g, &ty, &n2, dd); if (ty != type || n2 != nd || memcmp(dd, d, nd * sizeof(int)) || GA_Ndim(g) != nd) F("inquire wrong"); }
  int nb = BLOCKY(K) ? GA_Total_blocks(g) : np; int *own = malloc(N * sizeof(int)), *lat = malloc(N * sizeof(int)); for (k = 0; k < N; k++) own[k] = -1; int nonempty = 0, nbk[MD], tot = 1;
  GA_Nblock(g, nbk); for (i = 0; i < nd; i++) { tot *= nbk[i]; H(nbk[i]); if (nbk[i] < 1) F("nblock[%d]=%d", i, nbk[i]); }
  int *bl = malloc(nb * 2 * MD * sizeof(int));
  for (b = 0; b < nb; b++) { NGA_Distribution(g, b, lo, hi); memcpy(bl + b * 2 * MD, lo, sizeof lo); memcpy(bl + b * 2 * MD + MD, hi, sizeof hi); if (!vol(nd, lo, hi)) continue; nonempty++;
    for (i = 0; i < nd; i++) { if (lo[i] < 0 || hi[i] >= d[i]) F("block %d (%s)-(%s) lies outside", b, sv(nd, lo), sv(nd, hi)); H(lo[i]); H(hi[i]); s[i] = lo[i]; }
    do { k = ix(nd, d, s); if (own[k] >= 0) F("element (%s) belongs to blocks %d and %d", sv(nd, s), own[k], b); own[k] = b; } while (nx(nd, lo, hi, s)); }
  for (i = 0; i < nd; i++) s[i] = 0;
  do { k = ix(nd, d, s); if (own[k] < 0) F("element (%s) belongs to no block", sv(nd, s)); lat[k] = NGA_Locate(g, s); H(lat[k]); if (lat[k] != own[k]) F("locate (%s) says %d, distribution says %d", sv(nd, s), lat[k], own[k]); } while (nx(nd, zl, zh, s));
  if (nonempty > tot) F("%d non-empty blocks but %d blocks", nonempty, tot);
  if (BLOCKY(K) && nb != tot) F("total_blocks %d, nblock product %d", nb, tot);
  { int o[MD]; for (i = 0; i < nd; i++) { memcpy(o, zl, sizeof o); o[i] = -1; if (NGA_Locate(g, o) >= 0) F("locate accepts an index below range"); o[i] = d[i]; if (NGA_Locate(g, o) >= 0) F("locate accepts an index above range"); } }
  /* regions: the pieces partition the region and belong to the named owners */
  int *map = malloc((nb + 1) * 2 * nd * sizeof(int)), *pr = malloc((nb + 1) * sizeof(int)), *seen = malloc(N * sizeof(int)); int step = 0; memcpy(lo, zl, sizeof lo); memcpy(hi, zl, sizeof hi);
  do { if (N > 40 && (step++ % 7)) continue; int m = NGA_Locate_region(g, lo, hi, map, pr), q; for (k = 0; k < N; k++) seen[k] = 0; long got = 0; if (m < 0 || m > nb) F("locate_region returns %d pieces", m);
    for (q = 0; q < m; q++) { int *l = map + q * 2 * nd, *h = l + nd; memcpy(s, l, nd * sizeof(int)); if (!vol(nd, l, h)) F("locate_region (%s)-(%s): empty piece", sv(nd, lo), sv(nd, hi));
      do { for (i = 0; i < nd; i++) if (s[i] < lo[i] || s[i] > hi[i]) F("locate_region (%s)-(%s): piece (%s)-(%s) outside", sv(nd, lo), sv(nd, hi), sv(nd, l), sv(nd, h)); k = ix(nd, d, s); if (own[k] != pr[q]) F("locate_region (%s)-(%s): (%s) attributed to %d, owner is %d", sv(nd, lo), sv(nd, hi), sv(nd, s), pr[q], own[k]); if (seen[k]++) F("locate_region: duplicate element"); got++; } while (nx(nd, l, h, s)); }
    if (got != vol(nd, lo, hi)) F("locate_region (%s)-(%s): pieces cover %ld of %ld elements", sv(nd, lo), sv(nd, hi), got, vol(nd, lo, hi));
    if (!BLOCKY(K)) { int nn = NGA_Locate_nnodes(g, lo, hi); if (nn != m) F("locate_nnodes %d, locate_region %d", nn, m); }
    else { int nn = NGA_Locate_num_blocks(g, lo, hi); if (nn != m) F("locate_num_blocks %d, locate_region %d", nn, m); }
    sim_count(0, 1); } while (nxpatch(nd, d, lo, hi));
  /* owner of each block as a process */
  if (K == D_SCAL || K == D_TILED || K == D_TILEDIRR) { int pg[MD], pi[MD], used[64] = { 0 }, p2, c = 1; GA_Get_proc_grid(g, pg); rev(pg); for (i = 0; i < nd; i++) { c *= pg[i]; H(pg[i]); } if (c != np) F("process grid has %d processes", c); if (!GA_Uses_proc_grid(g)) F("uses_proc_grid");
    for (p2 = 0; p2 < np; p2++) { GA_Get_proc_index(g, p2, pi); int id = 0; for (i = 0; i < nd; i++) { if (pi[i] < 0 || pi[i] >= pg[i]) F("process %d has grid index %d", p2, pi[i]); id = id * pg[i] + pi[i]; H(pi[i]); } if (used[id]++) F("two processes have the same grid index"); }
    if (K != D_TILEDIRR) { int nbs[MD], bd[MD]; GA_Get_block_info(g, nbs, bd); for (i = 0; i < nd; i++) if (nbs[i] != nbk[i] || (nbs[i] - 1) * bd[i] >= d[i] || nbs[i] * bd[i] < d[i]) F("block info: %d blocks of %d for %d elements", nbs[i], bd[i], d[i]); } }
  else if (!BLOCKY(K)) { int used[64] = { 0 }, p2, c[MD]; for (p2 = 0; p2 < tot; p2++) { NGA_Proc_topology(g, p2, c); rev(c); int id = 0; for (i = 0; i < nd; i++) { if (c[i] < 0 || c[i] >= nbk[i]) F("topology: process %d coordinate %d", p2, c[i]); id = id * nbk[i] + c[i]; } if (used[id]++) F("topology: two processes have the same coordinates");
      if (K != D_RESTR && K != D_RRANGE) { NGA_Distribution(g, p2, lo, hi); int q; for (q = 0; q < p2; q++) { int c2[MD], l2[MD], h2[MD], e; NGA_Proc_topology(g, q, c2); rev(c2); NGA_Distribution(g, q, l2, h2); for (e = 0; e < nd; e++) if (c[e] == c2[e] && vol(nd, lo, hi) && vol(nd, l2, h2) && (lo[e] != l2[e] || hi[e] != h2[e])) F("processes %d and %d share coordinate %d but not the range", p2, q, e); } } } }
  for (i = 0; i < 2; i++) { int h = i ? gd : g; if (GA_Compare_distr(g, h) != 0) F("compare_distr of equal distributions"); }
  for (b = 0; b < nb; b++) { int l2[MD], h2[MD]; NGA_Distribution(gd, b, l2, h2); int *l = bl + b * 2 * MD, *h = l + MD; if (vol(nd, l, h) != vol(nd, l2, h2) || (vol(nd, l, h) && (memcmp(l, l2, nd * sizeof(int)) || memcmp(h, h2, nd * sizeof(int))))) F("the duplicate has a different distribution"); }
  /* agreement of all processes */
  unsigned long *S = sim_shared(); S[my] = hsh; sim_yield(); if (K == D_GROUP) GA_Pgroup_sync(GA_Get_pgroup(g)); else GA_Sync(); for (i = 0; i < P; i++) if (in_group(K, P, i) && S[i] != hsh) F("processes disagree about the distribution");
  /* local access: write through the pointers of the owner, everybody reads through get */
  int gme = K == D_GROUP ? GA_Pgroup_nodeid(GA_Get_pgroup(g)) : my; RA r = ra(t, nd, d); for (k = 0; k < N; k++) { r.v[2 * k] = 1 + k % 97; r.v[2 * k + 1] = k % 5; }
  if (!BLOCKY(K)) { NGA_Distribution(g, gme, lo, hi); if (vol(nd, lo, hi)) { char *p; NGA_Access(g, lo, hi, &p, ld); memcpy(s, lo, sizeof s); do { long o = 0; for (i = 0; i < nd; i++) o = (i ? o * ld[i - 1] : 0) + s[i] - lo[i]; k = ix(nd, d, s); pe(p, t, o, r.v[2 * k], r.v[2 * k + 1]); } while (nx(nd, lo, hi, s)); NGA_Release_update(g, lo, hi); } }
  else for (b = 0; b < nb; b++) { NGA_Distribution(g, b, lo, hi); char *p, *p2; int owner; if (!vol(nd, lo, hi)) continue;
    if (K == D_BC) owner = b % P; else { int pg[MD], pi[MD], bi[MD], q, rem = b; GA_Get_proc_grid(g, pg); rev(pg); for (i = nd - 1; i >= 0; i--) { bi[i] = rem % nbk[i]; rem /= nbk[i]; } owner = -1; for (q = 0; q < P; q++) { GA_Get_proc_index(g, q, pi); int ok = 1; for (i = 0; i < nd; i++) if (pi[i] != bi[i] % pg[i]) ok = 0; if (ok) owner = q; } if (owner < 0) F("no owner of block %d", b);
      { int e, l2[MD]; memcpy(l2, lo, sizeof l2); (void)e; if (owner == my) { NGA_Access_block_grid(g, bi, &p2, ld); } } }
    if (owner != my) continue; NGA_Access_block(g, b, &p, ld); if (K != D_BC && p != p2) F("access_block and access_block_grid disagree on block %d", b);
    char *sp; int len; NGA_Access_block_segment(g, my, &sp, &len); long last = 0; for (i = 0; i < nd; i++) last = (i ? last * ld[i - 1] : 0) + hi[i] - lo[i]; if (p < sp || p + (last + 1) * TS[t] > sp + (long)len * TS[t]) F("block %d lies outside the owner's segment (offset %ld, last %ld, segment %d)", b, (long)(p - sp) / TS[t], last, len); NGA_Release_block_segment(g, my);
    memcpy(s, lo, sizeof s); do { long o = 0; for (i = 0; i < nd; i++) o = (i ? o * ld[i - 1] : 0) + s[i] - lo[i]; k = ix(nd, d, s); pe(p, t, o, r.v[2 * k], r.v[2 * k + 1]); } while (nx(nd, lo, hi, s)); NGA_Release_update_block(g, b); }
  if (K == D_GROUP) GA_Pgroup_sync(GA_Get_pgroup(g)); else GA_Sync(); cmp_all(g, &r, w);
  if (K == D_GROUP) GA_Pgroup_sync(GA_Get_pgroup(g)); else GA_Sync();
  compare(g, K, var, type, w); GA_Destroy(gd); GA_Destroy(g); free(own); free(lat); free(bl); free(map); free(pr); free(seen); free(r.v); }
void scen_main(int r, int np_) { gboot(); int mx = opt_("max", 5), kinds = ND, nv = 2; nd = opt_("nd", 2); long nds = 1; int i; for (i = 0; i < nd; i++) nds *= mx;
  int sub = opt_("sub", 0); if (sub) { int l[16], c = 0; for (i = n - 1; i >= 0; i--) if (i != 1) l[c++] = i; if (me != 1) { int g = GA_Pgroup_create(l, c); GA_Pgroup_set_default(g); } else in = 0; }
  part_begin(); sim_set_cases(nds * kinds * nv); long c = sim_begin(); K = c % kinds; c /= kinds; var = c % nv; c /= nv; for (i = 0; i < nd; i++) { d[i] = 1 + c % mx; c /= mx; if (opt_("big", 0)) d[i] = 1 + (d[i] - 1) * opt_("big", 0); }
  if (in && !(sub && (BLOCKY(K) || K == D_GROUP)) && kind_ok(K, nd, d, var)) one();
  sim_barrier(); if (in) GA_Sync(); if (sub) GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Terminate(); MPI_Finalize(); }
