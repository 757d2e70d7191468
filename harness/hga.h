/* global-array factory, element access, reference arrays, odometers */
#ifndef HGA_H
#define HGA_H
#include "hg.h"
#define MD 7
enum { D_REG, D_CHUNK1, D_CHUNKF, D_IRREG, D_BC, D_SCAL, D_TILED, D_TILEDIRR, D_GHOST, D_RESTR, D_RRANGE, D_GROUP, D_GHIRREG, ND };
static const char *DN[] = { "regular", "chunk-first", "chunk-last", "irregular", "block-cyclic", "scalapack", "tiled", "tiled-irregular", "ghosts", "restricted", "restricted-range", "group", "ghosts-irregular" };
static const int TY[7] = { C_INT, C_LONG, C_LONGLONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL };
static const int TS[7] = { 4, 8, 8, 4, 8, 8, 16 };
static const char *TN[7] = { "int", "long", "longlong", "float", "double", "scomplex", "dcomplex" };
#define CPLX(t) ((t) >= 5)
static inline void pe(void *b, int t, long i, double re, double im) { switch (t) { case 0: ((int *)b)[i] = re; break; case 1: ((long *)b)[i] = re; break; case 2: ((long long *)b)[i] = re; break; case 3: ((float *)b)[i] = re; break; case 4: ((double *)b)[i] = re; break;
  case 5: ((float *)b)[2 * i] = re; ((float *)b)[2 * i + 1] = im; break; case 6: ((double *)b)[2 * i] = re; ((double *)b)[2 * i + 1] = im; break; } }
static inline void ge(const void *b, int t, long i, double *re, double *im) { *im = 0; switch (t) { case 0: *re = ((int *)b)[i]; break; case 1: *re = ((long *)b)[i]; break; case 2: *re = ((long long *)b)[i]; break; case 3: *re = ((float *)b)[i]; break; case 4: *re = ((double *)b)[i]; break;
  case 5: *re = ((float *)b)[2 * i]; *im = ((float *)b)[2 * i + 1]; break; case 6: *re = ((double *)b)[2 * i]; *im = ((double *)b)[2 * i + 1]; break; } }
/* processes taking part (world or default group) */
static int P, my, in = 1, grp0;
/* process grid for nd dimensions; var rotates it */
static void gridof(int p, int nd, int var, int *g) { int d, k = 0, f; for (d = 0; d < nd; d++) g[d] = 1; for (f = 2; p > 1; f++) while (p % f == 0) { g[(k++ + var) % nd] *= f; p /= f; } }
static int cut(int dim, int want) { return dim < want ? dim : want; }
/* irregular map: nb blocks of dim, skewed; returns number of entries (starts, 0-based) */
static int skew(int dim, int nb, int var, int *map) { int i; for (i = 0; i < nb; i++) map[i] = i; if (var) for (i = 1; i < nb; i++) map[i] = dim - nb + i; return nb; }
static int in_group(int k, int p, int r) { return k == D_GROUP ? (p < 3 ? r < p : r != 1) : 1; }
static int GW[MD] = { 1, 2, 1, 1, 1, 1, 1 };
static int grpcache = -2, mkgrp = -1, gvx = 0;
/* var: variant 0.. (grid rotation, block size, skew). Every participating process calls it. */
static int (*mk_handle)(void) = GA_Create_handle; /* the handle may come from another interface */
static int mk(int k, int type, int nd, const int *dims_, int var, const char *nm) {
  int g = mk_handle(), d[MD], i, j, b[MD], gr[MD], map[64], ch[MD], m = 0; for (i = 0; i < nd; i++) d[i] = dims_[i];
  GA_Set_data(g, nd, d, type); GA_Set_array_name(g, (char *)nm); int p = P;
  if (mkgrp >= 0) NGA_Set_pgroup(g, mkgrp);
  if (k == D_GROUP) { int l[16], c = 0; for (i = P - 1; i >= 0; i--) if (in_group(k, P, i)) l[c++] = i; if (grpcache == -2) grpcache = GA_Pgroup_create(l, c); NGA_Set_pgroup(g, grpcache); p = c; }
  if (k == D_RESTR) { int l[16], c = 0; for (i = P - 1; i >= 0; i--) if (i % 2 == 1 || i == P - 1) l[c++] = i; GA_Set_restricted(g, l, c); p = c; }
  if (k == D_RRANGE) { GA_Set_restricted_range(g, 1, P - 1); p = P - 1; }
  for (i = 0; i < nd; i++) ch[i] = -1;
  if (k == D_CHUNK1) { ch[0] = var ? 2 : d[0]; for (i = 1; i < nd; i++) ch[i] = 1; GA_Set_chunk(g, ch); }
  if (k == D_CHUNKF) { ch[nd - 1] = var ? 3 : d[nd - 1]; GA_Set_chunk(g, ch); }
  if (k == D_IRREG || k == D_GHIRREG) { gridof(p, nd, var + gvx, gr); for (i = 0; i < nd; i++) { b[i] = cut(d[i], gr[i]); m += skew(d[i], b[i], (i + var) & 1, map + m); } GA_Set_irreg_distr(g, map, b); }
  if (k == D_GHOST || k == D_GHIRREG) { int w[MD]; for (i = 0; i < nd; i++) w[i] = GW[i]; GA_Set_ghosts(g, w); }
  if (k == D_BC) { for (i = 0; i < nd; i++) b[i] = var ? 1 + (i & 1) : 2 + (i & 1); GA_Set_block_cyclic(g, b); }
  if (k == D_SCAL || k == D_TILED) { gridof(p, nd, var + gvx, gr); for (i = 0; i < nd; i++) b[i] = var ? 1 + (i & 1) : 2 + (i & 1); if (k == D_SCAL) GA_Set_block_cyclic_proc_grid(g, b, gr); else GA_Set_tiled_proc_grid(g, b, gr); }
  if (k == D_TILEDIRR) { gridof(p, nd, var + gvx, gr); for (i = 0; i < nd; i++) { b[i] = cut(d[i], gr[i] * 2 - (i & 1)); if (b[i] < gr[i] && d[i] >= gr[i]) b[i] = gr[i]; m += skew(d[i], b[i], (i + var) & 1, map + m); } GA_Set_tiled_irreg_proc_grid(g, map, b, gr); }
  (void)j; if (!GA_Allocate(g)) sim_fail("GA_Allocate failed (%s)", DN[k]); return g; }
/* documented restriction of ghost arrays: every process owns data and no width exceeds a block. Collective. */
static int kind_ok(int k, int nd, const int *dims, int var) { int i, p, ok = 1, lo[MD], hi[MD]; if ((k == D_RESTR || k == D_RRANGE || k == D_GROUP) && P < 2) return 0;
  if (k == D_GHOST || k == D_GHIRREG) { int g = mk(k == D_GHOST ? D_REG : D_IRREG, C_INT, nd, dims, var, "probe"); for (p = 0; p < P; p++) { NGA_Distribution(g, p, lo, hi); for (i = 0; i < nd; i++) if (hi[i] - lo[i] + 1 < GW[i] || hi[i] < lo[i]) ok = 0; } GA_Destroy(g); } return ok; }
#define BLOCKY(k) ((k) >= D_BC && (k) <= D_TILEDIRR)
/* odometers; row-major, last index fastest */
static int nx(int nd, const int *lo, const int *hi, int *s) { int i; for (i = nd - 1; i >= 0; i--) { if (++s[i] <= hi[i]) return 1; s[i] = lo[i]; } return 0; }
static int nxpatch(int nd, const int *dims, int *lo, int *hi) { int i; for (i = nd - 1; i >= 0; i--) { if (++hi[i] < dims[i]) return 1; if (++lo[i] < dims[i]) { hi[i] = lo[i]; return 1; } lo[i] = hi[i] = 0; } return 0; }
static long vol(int nd, const int *lo, const int *hi) { long v = 1; int i; for (i = 0; i < nd; i++) { if (hi[i] < lo[i]) return 0; v *= hi[i] - lo[i] + 1; } return v; }
static long ix(int nd, const int *dims, const int *s) { long v = 0; int i; for (i = 0; i < nd; i++) v = v * dims[i] + s[i]; return v; }
/* reference array */
typedef struct { int nd, d[MD], t; long N; double *v; } RA;
static RA ra(int t, int nd, const int *d) { RA a; int i; a.nd = nd; a.t = t; a.N = 1; for (i = 0; i < nd; i++) { a.d[i] = d[i]; a.N *= d[i]; } a.v = calloc(2 * a.N + 1, sizeof(double)); return a; }
#define RE(a, s) (a).v[2 * ix((a).nd, (a).d, s)]
#define IM(a, s) (a).v[2 * ix((a).nd, (a).d, s) + 1]
static char *sv(int nd, const int *s) { static char b[8][64]; static int k; char *q = b[k++ & 7]; int i, o = 0; for (i = 0; i < nd; i++) o += sprintf(q + o, "%s%d", i ? "," : "", s[i]); return q; }
/* writes f into the owned parts through one NGA_Put of rank 0 .. whole array */
static void put_all(int g, RA *a) { int lo[MD], hi[MD], ld[MD], i; for (i = 0; i < a->nd; i++) { lo[i] = 0; hi[i] = a->d[i] - 1; if (i) ld[i - 1] = a->d[i]; } char *b = malloc(a->N * 16); for (i = 0; i < a->N; i++) pe(b, a->t, i, a->v[2 * i], a->v[2 * i + 1]); NGA_Put(g, lo, hi, b, ld); free(b); }
static void cmp_all(int g, RA *a, const char *what) { int lo[MD], hi[MD], ld[MD], i, s[MD]; long k; for (i = 0; i < a->nd; i++) { lo[i] = s[i] = 0; hi[i] = a->d[i] - 1; if (i) ld[i - 1] = a->d[i]; } char *b = malloc(a->N * 16); memset(b, 0x5a, a->N * 16); NGA_Get(g, lo, hi, b, ld);
  for (k = 0; k < a->N; k++) { double x, y; ge(b, a->t, k, &x, &y); if (x != a->v[2 * k] || (CPLX(a->t) && y != a->v[2 * k + 1])) sim_fail("%s: element (%s) is %g,%g instead of %g,%g", what, sv(a->nd, s), x, y, a->v[2 * k], a->v[2 * k + 1]); nx(a->nd, lo, hi, s); }
  sim_count(0, a->N); free(b); }
/* same check, but each block read directly from the owner's memory (no library transfer) */
static void gsync(int g) { int p = GA_Get_pgroup(g); GA_Pgroup_sync(p); }
/* owner of block b of a block distribution */
static int bowner(int g, int k, int b) { int nd = GA_Ndim(g), nbk[MD], pg[MD], pi[MD], bi[MD], i, q, rem = b; if (k == D_BC) return b % P; GA_Nblock(g, nbk); GA_Get_proc_grid(g, pg); for (i = nd - 1; i >= 0; i--) { bi[i] = rem % nbk[i]; rem /= nbk[i]; }
  for (q = 0; q < P; q++) { int ok = 1; GA_Get_proc_index(g, q, pi); for (i = 0; i < nd; i++) if (pi[i] != bi[i] % pg[nd - 1 - i]) ok = 0; if (ok) return q; } return -1; }
static double LTOL; static int ne_(double x, double X) { return LTOL == 0 ? x != X : !(fabs(x - X) <= LTOL * (fabs(X) > 1 ? fabs(X) : 1)); }
/* the owned parts through the owner's own pointers, no library transfer: wr writes, otherwise compares */
static void local_all(int g, int k, RA *r, int wr, const char *what) { int nd = r->nd, lo[MD], hi[MD], ld[MD], s[MD], i, b, nb = BLOCKY(k) ? GA_Total_blocks(g) : 1, gme = GA_Pgroup_nodeid(GA_Get_pgroup(g)); char *p;
  for (b = 0; b < nb; b++) { NGA_Distribution(g, BLOCKY(k) ? b : gme, lo, hi); if (!vol(nd, lo, hi)) continue; if (BLOCKY(k)) { if (bowner(g, k, b) != my) continue; NGA_Access_block(g, b, &p, ld); } else NGA_Access(g, lo, hi, &p, ld);
    memcpy(s, lo, sizeof s); do { long o = 0; double x, y; for (i = 0; i < nd; i++) o = (i ? o * ld[i - 1] : 0) + s[i] - lo[i]; if (wr) pe(p, r->t, o, RE(*r, s), IM(*r, s)); else { ge(p, r->t, o, &x, &y); if (ne_(x, RE(*r, s)) || (CPLX(r->t) && ne_(y, IM(*r, s)))) sim_fail("%s: element (%s) in the owner's memory is %g,%g instead of %g,%g", what, sv(nd, s), x, y, RE(*r, s), IM(*r, s)); } } while (nx(nd, lo, hi, s));
    if (BLOCKY(k)) NGA_Release_update_block(g, b); else NGA_Release_update(g, lo, hi); } sim_count(0, r->N); }
static void iota(RA *r, int salt) { long k; for (k = 0; k < r->N; k++) { r->v[2 * k] = 1 + (k * 7 + salt * 13) % 97; r->v[2 * k + 1] = CPLX(r->t) ? (k + salt) % 5 : 0; } }
static void part_begin(void) { P = mkgrp >= 0 ? GA_Pgroup_nnodes(mkgrp) : GA_Nnodes(); my = mkgrp >= 0 ? GA_Pgroup_nodeid(mkgrp) : GA_Nodeid(); }
#endif
