/* G25: global pointer arrays against a table of byte strings */
#include "hga.h"
#include "gp.h"
#define ME_ 128
static int gp, nd, d[MD]; static long N; static int sz[ME_], ver[ME_], asg[ME_]; static void *lp[ME_]; static char w[240], step_[120];
#define F(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); sim_fail("%s, %s: %s", w, step_, b_); } while (0)
static unsigned char ch(long e, int v, long k) { return v < 0 ? 0 : (unsigned char)(e * 37 + v * 11 + k * 5 + (k >> 8) + 1); }
static void fillb(void *p, long e, int v, int s) { int k; for (k = 0; k < s; k++) ((unsigned char *)p)[k] = ch(e, v, k); }
static void cmpb(const void *p, long e, const char *what) { int k, s[MD], i; long q = e; for (i = nd - 1; i >= 0; i--) { s[i] = q % d[i]; q /= d[i]; } for (k = 0; k < sz[e]; k++) if (((unsigned char *)p)[k] != ch(e, ver[e], k)) F("%s: byte %d of %d of element (%s) is %d instead of %d", what, k, sz[e], sv(nd, s), ((unsigned char *)p)[k], ch(e, ver[e], k)); }
static int owner[ME_], mylo[MD], myhi[MD];
static void sub(long e, int *s) { int i; for (i = nd - 1; i >= 0; i--) { s[i] = e % d[i]; e /= d[i]; } }
static void vtest(int turn) { /* everything, from this process */
  int lo[MD] = { 0 }, hi[MD] = { 0 }, s[MD], i, q = turn; sim_count(1, 1);
  do { int sum = 0, got = -1, pad = q % 3, sb = q & 1, ld[MD], ls[MD], e = 1; long nb, nz; q++; memcpy(s, lo, sizeof s); do sum += sz[ix(nd, d, s)]; while (nx(nd, lo, hi, s));
    GP_Get_size(gp, lo, hi, &got); if (got != sum) F("GP_Get_size of %s-%s is %d instead of %d", sv(nd, lo), sv(nd, hi), got, sum);
    nb = nz = hi[0] - lo[0] + 1; for (i = 1; i < nd; i++) { ld[i - 1] = hi[i] - lo[i] + 1 + (pad == 1); ls[i - 1] = hi[i] - lo[i] + 1 + (pad == 2) * i; nb *= ld[i - 1]; nz *= ls[i - 1]; }
    void **bp = malloc(8 * nb); int *bs = malloc(4 * nz); char *buf = malloc(sum + 32), *z = buf; memset(bp, 0x11, 8 * nb); memset(bs, 0x22, 4 * nz); memset(buf, 0x33, sum + 32);
    if (sb) { memcpy(s, lo, sizeof s); do { long ob = 0, oz = 0, e_ = ix(nd, d, s); for (i = 0; i < nd; i++) { ob = (i ? ob * ld[i - 1] : 0) + s[i] - lo[i]; oz = (i ? oz * ls[i - 1] : 0) + s[i] - lo[i]; } bp[ob] = z; bs[oz] = sz[e_]; z += sz[e_]; } while (nx(nd, lo, hi, s)); }
    got = -1; GP_Get(gp, lo, hi, buf, bp, ld, bs, ls, &got, sb); if (got != sum) F("GP_Get of %s-%s%s returns size %d instead of %d", sv(nd, lo), sv(nd, hi), sb ? " into given buffers" : "", got, sum);
    memcpy(s, lo, sizeof s); long used = 0; do { long ob = 0, oz = 0, e_ = ix(nd, d, s); char t[80]; for (i = 0; i < nd; i++) { ob = (i ? ob * ld[i - 1] : 0) + s[i] - lo[i]; oz = (i ? oz * ls[i - 1] : 0) + s[i] - lo[i]; } snprintf(t, sizeof t, "GP_Get %s-%s%s", sv(nd, lo), sv(nd, hi), sb ? " (given buffers)" : "");
      if (bs[oz] != sz[e_]) F("%s: size of element (%s) is %d instead of %d", t, sv(nd, s), bs[oz], sz[e_]); if (sz[e_]) { if ((char *)bp[ob] < buf || (char *)bp[ob] + sz[e_] > buf + sum) F("%s: pointer of element (%s) is outside the buffer", t, sv(nd, s)); cmpb(bp[ob], e_, t); } used++; } while (nx(nd, lo, hi, s));
    for (i = 0; i < nz; i++) if (pad == 2 && nd == 2 && i % ls[0] > hi[1] - lo[1] && bs[i] != 0x22222222) F("GP_Get of %s-%s writes outside the size buffer's patch", sv(nd, lo), sv(nd, hi)); for (i = 0; i < 32; i++) if (buf[sum + i] != 0x33) F("GP_Get of %s-%s writes beyond the buffer", sv(nd, lo), sv(nd, hi)); (void)e;
    free(bp); free(bs); free(buf); } while (nxpatch(nd, d, lo, hi));
  /* lists of elements: all reversed, every second twice, single ones */
  for (q = 0; q < 3; q++) { int nv = q == 0 ? N : q == 1 ? 2 * ((N + 1) / 2) : 1, *L = malloc(4 * nv * nd), *E = malloc(4 * nv), sum = 0, got = -1, sb = (q + turn) & 1, k; for (k = 0; k < nv; k++) { E[k] = q == 0 ? N - 1 - k : q == 1 ? (k / 2) * 2 % N : turn % N; sub(E[k], L + k * nd); sum += sz[E[k]]; }
    GP_Gather_size(gp, nv, L, &got); if (got != sum) F("GP_Gather_size of list %d is %d instead of %d", q, got, sum); void **bp = malloc(8 * nv); int *bs = malloc(4 * nv); char *buf = malloc(sum + 32), *z = buf; memset(bs, 0x22, 4 * nv); memset(buf, 0x33, sum + 32); if (sb) for (k = 0; k < nv; k++) { bp[k] = z; bs[k] = sz[E[k]]; z += bs[k]; }
    got = -1; GP_Gather(gp, nv, L, buf, bp, bs, &got, sb); if (got != sum) F("GP_Gather of list %d returns size %d instead of %d", q, got, sum); for (k = 0; k < nv; k++) { if (bs[k] != sz[E[k]]) F("GP_Gather: size of entry %d is %d instead of %d", k, bs[k], sz[E[k]]); if (sz[E[k]]) { if ((char *)bp[k] < buf || (char *)bp[k] + sz[E[k]] > buf + sum) F("GP_Gather: pointer of entry %d is outside the buffer", k); cmpb(bp[k], E[k], "GP_Gather"); } }
    for (k = 0; k < 32; k++) if (buf[sum + k] != 0x33) F("GP_Gather writes beyond the buffer"); free(L); free(E); free(bp); free(bs); free(buf); }
  long e; for (e = 0; e < N; e++) if (owner[e] == my) { void *p = (void *)1; int s_ = -1; sub(e, s); GP_Access_element(gp, s, &p, &s_); if (s_ != sz[e]) F("GP_Access_element (%s): size %d instead of %d", sv(nd, s), s_, sz[e]); if (asg[e] && p != lp[e]) F("GP_Access_element (%s) returns another pointer than the one assigned", sv(nd, s)); if (sz[e]) cmpb(p, e, "GP_Access_element"); GP_Release_element(gp, s); } }
static void check(const char *st, int turn) { snprintf(step_, sizeof step_, "%s", st); GP_Sync(); int p; for (p = 0; p < P; p++) if (p == my && (P < 3 || (p + turn) % 2 == 0 || p == turn % P)) vtest(turn + p); GP_Sync(); }
static int size_of(long e, int pat) { static const int A[] = { 8, 1, 0, 13, 3, 40, 7, 16 }; switch (pat) { case 0: return 8; case 1: return A[e % 8]; case 2: return e % 3 ? 0 : 5 + e; case 3: return e % 5 == 4 ? 0 : 1 + (e * 7) % 11; } return e == 1 ? 300 : A[(e + 3) % 8]; }
static void assign(long e, int s) { if (owner[e] != my) { sz[e] = s; asg[e] = s > 0; return; } int q[MD]; sub(e, q); sz[e] = s; asg[e] = s > 0; if (!s) return; lp[e] = GP_Malloc(s); if (!lp[e]) F("GP_Malloc of %d bytes fails", s); fillb(lp[e], e, ver[e], s); GP_Assign_local_element(gp, q, lp[e], s); }
static void put(const int *lo, const int *hi, int pad, int chk) { int i, ld[MD], ls[MD], s[MD], sum = 0, got = -1; long nb = hi[0] - lo[0] + 1, nz = nb; for (i = 1; i < nd; i++) { ld[i - 1] = hi[i] - lo[i] + 1 + (pad == 1) * i; ls[i - 1] = hi[i] - lo[i] + 1 + (pad == 2); nb *= ld[i - 1]; nz *= ls[i - 1]; } void **bp = calloc(8, nb); int *bs = malloc(4 * nz); memset(bs, 0x22, 4 * nz);
  memcpy(s, lo, sizeof s); do { long ob = 0, oz = 0, e = ix(nd, d, s); for (i = 0; i < nd; i++) { ob = (i ? ob * ld[i - 1] : 0) + s[i] - lo[i]; oz = (i ? oz * ls[i - 1] : 0) + s[i] - lo[i]; } bs[oz] = sz[e]; bp[ob] = malloc(sz[e] + 1); fillb(bp[ob], e, ver[e], sz[e]); sum += sz[e]; } while (nx(nd, lo, hi, s));
  GP_Put(gp, (int *)lo, (int *)hi, bp, ld, bs, ls, &got, chk); if (got != sum) F("GP_Put of %s-%s returns size %d instead of %d", sv(nd, lo), sv(nd, hi), got, sum); for (i = 0; i < nb; i++) if (bp[i]) { memset(bp[i], 0x77, 1); free(bp[i]); } free(bp); free(bs); }
static void mkarr(const int *dims, int nd_, int mode) { int i, p, lo[MD], hi[MD], m[32], b[MD], gr[MD], k = 0; nd = nd_; N = 1; for (i = 0; i < nd; i++) { d[i] = dims[i]; N *= d[i]; } gp = GP_Create_handle(); GP_Set_dimensions(gp, nd, d); if (GP_Get_dimension(gp) != nd) F("GP_Get_dimension is wrong");
  if (mode == 1) { int c[MD]; for (i = 0; i < nd; i++) c[i] = i ? d[i] : 1; GP_Set_chunk(gp, c); } if (mode == 2) { int c[MD]; for (i = 0; i < nd; i++) c[i] = i == nd - 1 ? 1 : d[i]; GP_Set_chunk(gp, c); } if (mode == 3) { gridof(P, nd, 1, gr); for (i = 0; i < nd; i++) { b[i] = cut(d[i], gr[i]); k += skew(d[i], b[i], i & 1, m + k); } GP_Set_irreg_distr(gp, m, b); }
  if (!GP_Allocate(gp)) F("GP_Allocate fails"); memset(sz, 0, sizeof sz); memset(asg, 0, sizeof asg); memset(ver, 0, sizeof ver); for (i = 0; i < N; i++) owner[i] = -1;
  for (p = 0; p < P; p++) { int s[MD]; GP_Distribution(gp, p, lo, hi); if (p == my) { memcpy(mylo, lo, sizeof lo); memcpy(myhi, hi, sizeof hi); } if (!vol(nd, lo, hi)) continue; memcpy(s, lo, sizeof s); do { for (i = 0; i < nd; i++) if (s[i] < 0 || s[i] >= d[i]) F("GP_Distribution of process %d exceeds the array", p); long e = ix(nd, d, s); if (owner[e] >= 0) F("element (%s) belongs to processes %d and %d", sv(nd, s), owner[e], p); owner[e] = p; } while (nx(nd, lo, hi, s)); } for (i = 0; i < N; i++) if (owner[i] < 0) F("element %d belongs to no process", i); }
static const struct { int nd, d[4]; } SH[] = { { 1, { 5 } }, { 2, { 3, 4 } }, { 1, { 1 } }, { 2, { 5, 2 } }, { 3, { 2, 3, 2 } }, { 1, { 9 } }, { 2, { 1, 6 } }, { 2, { 4, 5 } }, { 3, { 3, 2, 3 } }, { 4, { 2, 2, 2, 2 } } };
static long heap0;
static void life(int sh, int mode, int pat, int cs) { long e; int k, s[MD]; snprintf(w, sizeof w, "%s array, distribution %d, size pattern %d", sv(SH[sh].nd, SH[sh].d), mode, pat); strcpy(step_, "creation"); mkarr(SH[sh].d, SH[sh].nd, mode); check("nothing assigned", cs);
  for (e = 0; e < N; e++) assign(e, size_of(e, pat)); check("after assignment", cs + 1);
  for (e = 0; e < N; e++) ver[e] = 1; strcpy(step_, "local update"); for (e = 0; e < N; e++) if (owner[e] == my && sz[e]) { void *p; int z; sub(e, s); GP_Access_element(gp, s, &p, &z); fillb(p, e, 1, z); GP_Release_update_element(gp, s); } check("after local update", cs + 2);
  /* puts of patches: one by a single process, then disjoint ones by all */
  { int lo[MD], hi[MD], q, i; for (q = 0; q < 4; q++) { for (i = 0; i < nd; i++) { lo[i] = (q + i) % 3 == 1 && d[i] > 1 ? 1 : 0; hi[i] = (q + i) % 3 == 2 && d[i] > 1 ? d[i] - 2 : d[i] - 1; if (hi[i] < lo[i]) hi[i] = lo[i]; } memcpy(s, lo, sizeof s); do ver[ix(nd, d, s)] = 2 + q; while (nx(nd, lo, hi, s)); GP_Sync(); if ((cs + q) % P == my) { strcpy(step_, "put"); put(lo, hi, (cs + q) % 3, q & 1); } check("after put", cs + q); }
    for (i = 1; i < nd; i++) { lo[i] = 0; hi[i] = d[i] - 1; } for (e = 0; e < N; e++) ver[e] = 7; GP_Sync(); for (i = 0; i < d[0]; i++) if (i % P == my) { lo[0] = hi[0] = i; put(lo, hi, i % 3, 0); } check("after puts by all", cs + 3); }
  /* scatter: each process its share */
  { int share = cs & 1, nv = 0, sum = 0, got = -1, *L = malloc(4 * N * nd), *E = malloc(4 * N), *bs = malloc(4 * N); void **bp = malloc(8 * N); for (e = N - 1; e >= 0; e--) { ver[e] = 9; if (share ? e % P == my : my == cs % P) { sub(e, L + nv * nd); E[nv] = e; nv++; } } for (k = 0; k < nv; k++) { bs[k] = sz[E[k]]; bp[k] = malloc(bs[k] + 1); fillb(bp[k], E[k], 9, bs[k]); sum += bs[k]; } GP_Sync(); strcpy(step_, "scatter"); if (nv) { GP_Scatter(gp, nv, L, bp, bs, &got, cs & 1); if (got != sum) F("GP_Scatter returns size %d instead of %d", got, sum); } for (k = 0; k < nv; k++) { ((char *)bp[k])[0] = 0; free(bp[k]); } free(bp); free(bs); free(E); free(L); check("after scatter", cs); }
  /* free some, assign again */
  for (e = 0; e < N; e++) if ((e + cs) % 2 == 0 && asg[e]) { if (owner[e] == my) { sub(e, s); strcpy(step_, "free"); void *p = GP_Free_local_element(gp, s); if (p != lp[e]) F("GP_Free_local_element (%s) returns another pointer than the one assigned", sv(nd, s)); GP_Free(p); } sz[e] = asg[e] = 0; } check("after free", cs + 1);
  for (e = 0; e < N; e++) if (!asg[e] && e % 3 != 1) { ver[e] = 12; assign(e, size_of(e + 1, (pat + 1) % 4)); } check("after assigning again", cs + 2);
  strcpy(step_, "memzero"); GP_Memzero(gp); for (e = 0; e < N; e++) ver[e] = -1; check("after memzero", cs);
  for (e = 0; e < N; e++) if (asg[e] && owner[e] == my) { sub(e, s); GP_Free(GP_Free_local_element(gp, s)); } for (e = 0; e < N; e++) sz[e] = asg[e] = 0; check("after freeing everything", cs + 1); strcpy(step_, "destruction"); if (!GP_Destroy(gp)) F("GP_Destroy fails"); GA_Sync(); }
/* concurrent puts, gets and gathers of disjoint elements, explored schedules */
static void core(int cs) { long e; int s[MD], got; snprintf(w, sizeof w, "concurrent access %d", cs); sim_quiet(); mkarr(SH[cs % 4 == 2 ? 0 : cs % 4].d, SH[cs % 4 == 2 ? 0 : cs % 4].nd, cs / 4 % 4); for (e = 0; e < N; e++) assign(e, size_of(e, cs & 1 ? 3 : 4)); GP_Sync(); sim_resume();
  for (e = 0; e < N; e++) if (e % P == my) { ver[e] = 3; sub(e, s); put(s, s, 0, 0); } else ver[e] = 3; { int q = (my + 1) % P; (void)q; int a[MD], b[MD], i; for (i = 0; i < nd; i++) a[i] = 0, b[i] = d[i] - 1; GP_Get_size(gp, a, b, &got); } GP_Sync();
  { int nv = N, *L = malloc(4 * N * nd), *bs = malloc(4 * N), k, sum = 0; void **bp = malloc(8 * N); for (k = 0; k < N; k++) { sub(k, L + k * nd); sum += sz[k]; } char *buf = malloc(sum + 1); GP_Gather(gp, nv, L, buf, bp, bs, &got, 0); strcpy(step_, "gather"); for (k = 0; k < N; k++) if (sz[k]) cmpb(bp[k], k, "GP_Gather after GP_Sync"); free(L); free(bs); free(bp); free(buf); } GP_Sync(); sim_quiet(); check("at the end", cs); for (e = 0; e < N; e++) if (asg[e] && owner[e] == my) { sub(e, s); GP_Free(GP_Free_local_element(gp, s)); } GP_Sync(); GP_Destroy(gp); }
void scen_main(int rank, int np) { gboot(); part_begin(); GP_Initialize(); int ns = opt_("ns", 6), cr = opt_("core", 0), thin = opt_("thin", 1); long nc = cr ? 16 : (long)ns * 4 * 5; sim_set_cases((nc + thin - 1) / thin); long cs = sim_begin() * thin;
  if (cr) core(cs); else { int sh = cs / 20 % ns, mode = cs / 5 % 4, pat = cs % 5; if (!opt_("noheap", 0)) { life(0, 0, 1, 1); GA_Sync(); sim_barrier(); heap0 = sim_heap_live(sim_rank()); } life(sh, mode, pat, cs); if (!opt_("noheap", 0)) { GA_Sync(); sim_barrier(); if (sim_heap_live(sim_rank()) > heap0) F("%ld heap blocks more than before the array was created", sim_heap_live(sim_rank()) - heap0); sim_barrier(); }
    /* an array left over is cleaned up by GP_Terminate */ if (cs % 3 == 0) mkarr(SH[sh].d, SH[sh].nd, mode); }
  GA_Sync(); sim_quiet(); GP_Terminate(); GA_Terminate(); if (sim_live_shm()) F("GA_Terminate leaves %d shared memory segments", sim_live_shm()); MPI_Finalize(); }
