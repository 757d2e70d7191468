/* G17: segmented scans, pack/unpack, enumeration, selection, binning against their sequential definitions */
#include "hga.h"
extern void ga_bin_index_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *), ga_bin_sorter_(Integer *, Integer *, Integer *);
static const int K1[6] = { D_REG, D_IRREG, D_GHOST, D_RESTR, D_RRANGE, D_CHUNK1 };
static char w[200];
#define F(...) do { char b_[240]; snprintf(b_, sizeof b_, __VA_ARGS__); sim_fail("%s: %s", w, b_); } while (0)
static union { int i; long l; long long q; float f; double d; SingleComplex c; DoubleComplex z; } v1, v2;
#define SETU(u, t, re, im) pe(&(u), t, 0, re, im)
static void chk(int g, RA *r, int turn, const char *what) { GA_Sync(); if (turn % n == me) { char q[300]; snprintf(q, 300, "%s: %s", w, what); cmp_all(g, r, q); } GA_Sync(); }
static void fill(int g, RA *r, int turn) { GA_Sync(); if (turn % n == me) put_all(g, r); GA_Sync(); }
static void sent(RA *r) { long i; for (i = 0; i < r->N; i++) { r->v[2 * i] = 90 + i; r->v[2 * i + 1] = CPLX(r->t) ? 3 : 0; } }
/* one length, one mask, every sub-range */
static void scan(int len, long mask, int k, int var, int t, int tm, int strd) {
  int d = len, d2 = len + 1, lo, hi, j, turn = mask; part_begin(); if (!kind_ok(k, 1, &d, var)) k = D_REG; int kd = turn & 1 ? D_IRREG : D_REG;
  int src = mk(k, TY[t], 1, &d, var, "src"), dst = mk(k, TY[t], 1, &d, var, "dst"), msk = mk(k, TY[tm], 1, &d, var, "msk"), pk = mk(kd, TY[t], 1, &d2, !var, "packed"); RA s = ra(t, 1, &d), m = ra(tm, 1, &d), r = ra(t, 1, &d), p = ra(t, 1, &d2); iota(&s, 5 + (int)mask); for (j = 0; j < len; j++) { m.v[2 * j] = mask >> j & 1 ? (j & 1 ? -3 : j + 1) : 0; if (CPLX(tm) && (mask >> j & 1) && j % 3 == 1) m.v[2 * j] = 0, m.v[2 * j + 1] = 2; } fill(src, &s, 1); fill(msk, &m, 0);
  for (lo = 0; lo < len; lo++) for (hi = lo; hi < len; hi++) { if ((lo * 3 + hi + mask) % strd) continue; int ex, c, cnt = 0, b64 = turn & 1; turn++; snprintf(w, sizeof w, "%s array of %d %s, mask type %s, mask %lx, range %d-%d", DN[k], len, TN[t], TN[tm], mask, lo, hi);
    for (ex = 0; ex < 3; ex++) { /* 0 copy, 1 inclusive sum, 2 exclusive sum; what precedes the first set bit of the range is not specified */
      sent(&r); fill(dst, &r, turn); if (ex == 0) { if (b64) GA_Scan_copy64(src, dst, msk, lo, hi); else GA_Scan_copy(src, dst, msk, lo, hi); } else { if (b64) GA_Scan_add64(src, dst, msk, lo, hi, ex == 2); else GA_Scan_add(src, dst, msk, lo, hi, ex == 2); }
      int first = -1; double x = 0, y = 0; for (j = lo; j <= hi; j++) { int bit = mask >> j & 1; if (bit && first < 0) first = j; if (bit) { if (ex == 0) x = s.v[2 * j], y = s.v[2 * j + 1]; else x = y = 0; } if (ex == 1) x += s.v[2 * j], y += s.v[2 * j + 1]; if (first >= 0) r.v[2 * j] = x, r.v[2 * j + 1] = y; if (ex == 2) x += s.v[2 * j], y += s.v[2 * j + 1]; }
      /* the unspecified part is taken over, everything else compared */
      GA_Sync(); if ((turn + ex) % n == me) { char *b = malloc(16 * len), q[300]; int z = 0, e = len - 1, ld = 1; NGA_Get(dst, &z, &e, b, &ld); for (j = lo; j <= hi && (first < 0 || j < first); j++) ge(b, t, j, &r.v[2 * j], &r.v[2 * j + 1]); free(b); snprintf(q, 300, "%s: %s", w, ex == 0 ? "scan copy" : ex == 1 ? "inclusive scan" : "exclusive scan"); cmp_all(dst, &r, q); } GA_Sync(); }
    /* pack */
    sent(&p); fill(pk, &p, turn); for (j = lo; j <= hi; j++) if (mask >> j & 1) { p.v[2 * cnt] = s.v[2 * j]; p.v[2 * cnt + 1] = s.v[2 * j + 1]; cnt++; }
    c = -7; if (b64) { int64_t cc = -7; GA_Pack64(src, pk, msk, lo, hi, &cc); c = cc; } else GA_Pack(src, pk, msk, lo, hi, &c); if (c != cnt) F("pack counts %d elements instead of %d", c, cnt); chk(pk, &p, turn, "pack");
    /* unpack: a fresh packed array into dst */
    for (j = 0; j < d2; j++) { p.v[2 * j] = 40 + j; p.v[2 * j + 1] = CPLX(t) ? j : 0; } fill(pk, &p, turn); sent(&r); fill(dst, &r, turn + 1); cnt = 0; for (j = lo; j <= hi; j++) if (mask >> j & 1) { r.v[2 * j] = p.v[2 * cnt]; r.v[2 * j + 1] = p.v[2 * cnt + 1]; cnt++; }
    c = -7; if (b64) { int64_t cc = -7; GA_Unpack64(pk, dst, msk, lo, hi, &cc); c = cc; } else GA_Unpack(pk, dst, msk, lo, hi, &c); if (c != cnt) F("unpack counts %d elements instead of %d", c, cnt); chk(dst, &r, turn, "unpack"); chk(pk, &p, turn, "source of unpack");
    /* enumeration */
    if (mask < 3) { sent(&r); fill(dst, &r, turn); int inc = mask ? -2 : 3; SETU(v1, t, 7, 1); SETU(v2, t, inc, mask ? 0 : 1); for (j = lo; j <= hi; j++) { double a = j - lo; (void)a; r.v[2 * j] = 7 + inc * (j - lo); r.v[2 * j + 1] = CPLX(t) ? 1 + (mask ? 0 : j - lo) : 0; }
      if (b64) GA_Patch_enum64(dst, lo, hi, &v1, &v2); else GA_Patch_enum(dst, lo, hi, &v1, &v2); chk(dst, &r, turn, "enumeration"); } }
  chk(src, &s, 0, "source"); chk(msk, &m, 1, "mask"); GA_Destroy(src); GA_Destroy(dst); GA_Destroy(msk); GA_Destroy(pk); }
/* extreme element at every position, with and without equals */
static const struct { int nd, d[4]; } SH[] = { { 1, { 7 } }, { 2, { 4, 5 } }, { 2, { 1, 6 } }, { 3, { 3, 2, 3 } }, { 1, { 1 } }, { 2, { 3, 3 } }, { 4, { 2, 2, 3, 2 } } };
static void sel(int sh, int k, int var, int t, int step) { int nd = SH[sh].nd, i; const int *d = SH[sh].d; part_begin(); if (!kind_ok(k, nd, d, var)) k = D_REG; int g = mk(k, TY[t], nd, d, var, "a"); RA r = ra(t, nd, d); long p, q, c; int mode;
  for (p = 0; p < r.N; p += step) for (mode = 0; mode < 8; mode++) { int mx = mode & 1, neg = mode >> 1 & 1, tie = mode >> 2; snprintf(w, sizeof w, "%s array %s of %s, variant %d, %s at %ld%s%s", DN[k], sv(nd, d), TN[t], var, mx ? "maximum" : "minimum", p, neg ? ", negative values" : "", tie ? ", equal elements" : "");
    for (q = 0; q < r.N; q++) { double z = tie ? 10 + (q * 5 + p) % 3 : 10 + (q * 7 + p * 3) % 23; if (CPLX(t)) { r.v[2 * q] = (q & 1 ? -1 : 1) * z; r.v[2 * q + 1] = tie ? 0 : q % 4; } else r.v[2 * q] = neg ? -z : z; }
    if (CPLX(t)) { r.v[2 * p] = mx ? -40 : neg ? 0 : 1; r.v[2 * p + 1] = neg ? 2 : 0; } else r.v[2 * p] = mx ? (neg ? -2 : 50) : (neg ? -50 : 2);
    fill(g, &r, p + mode); int id[MD]; int64_t id8[MD]; char val[16]; double x, y; memset(id, 0x5a, sizeof id); memset(val, 0x5a, 16); if (mode & 2) { NGA_Select_elem64(g, mx ? "max" : "min", val, id8); for (i = 0; i < nd; i++) id[i] = id8[i]; } else NGA_Select_elem(g, mx ? "max" : "min", val, id);
    ge(val, t, 0, &x, &y); for (i = 0; i < nd; i++) if (id[i] < 0 || id[i] >= d[i]) F("index (%s) selected", sv(nd, id)); if (x != r.v[2 * p] || (CPLX(t) && y != r.v[2 * p + 1])) F("value %g,%g selected instead of %g,%g", x, y, r.v[2 * p], r.v[2 * p + 1]);
    c = ix(nd, d, id); if (c != p) F("element (%s) selected, which is %g,%g", sv(nd, id), r.v[2 * c], r.v[2 * c + 1]);
    /* every element equal: any index will do, and all processes have the same */
    if (mode == 7) { for (q = 0; q < r.N; q++) r.v[2 * q] = 6, r.v[2 * q + 1] = 0; fill(g, &r, p); NGA_Select_elem(g, "max", val, id); for (i = 0; i < nd; i++) if (id[i] < 0 || id[i] >= d[i]) F("index (%s) selected among equals", sv(nd, id)); ge(val, t, 0, &x, &y); if (x != 6 || y != 0) F("value %g selected among equals", x); int *S = sim_shared(); memcpy(S + 8 * me, id, sizeof(int) * nd); sim_barrier(); if (memcmp(S, id, sizeof(int) * nd)) F("processes select different elements"); sim_barrier(); }
    sim_count(0, 1); }
  GA_Destroy(g); }
/* every assignment of T elements to (process, bin) */
static void bins(long c, int nb, int T, int sort) { if (opt_("core", 0)) sim_quiet(); int bin[8], pr[8], i, j, cnt[8] = { 0 }, off[9], d = T, e = nb, round; long cc = c; part_begin(); for (i = 0; i < T; i++) { if (opt_("perm", 0)) bin[i] = i % nb; else bin[i] = cc % nb, cc /= nb; pr[i] = cc % n; cc /= n; cnt[bin[i]]++; } for (off[0] = i = 0; i < nb; i++) off[i + 1] = off[i] + cnt[i];
  snprintf(w, sizeof w, "%d elements in %d bins, case %ld", T, nb, c); if (sort) for (i = 0; i < nb; i++) if (!cnt[i]) return; if (sort && nb < n) return;
  int ki = c % 3 ? D_IRREG : D_REG, gc = mk(ki, C_LONG, 1, &e, c & 1, "counts"), go = mk(ki, C_LONG, 1, &e, c & 1, "offsets"), gb; RA rc = ra(1, 1, &e), ro = ra(1, 1, &e), rb = ra(1, 1, &d); for (i = 0; i < nb; i++) rc.v[2 * i] = cnt[i], ro.v[2 * i] = off[i]; fill(gc, &rc, c); fill(go, &ro, c + 1);
  if (sort) { /* each process holds whole bins, not those whose offsets it holds */ int map[16], nbk = n; gb = GA_Create_handle(); GA_Set_data(gb, 1, &d, C_LONG); for (i = 0; i < n; i++) map[i] = off[i * nb / n]; GA_Set_irreg_distr(gb, map, &nbk); if (!GA_Allocate(gb)) F("allocation fails"); } else gb = mk(c % 2 ? D_IRREG : D_REG, C_LONG, 1, &d, 0, "bins");
  long m0 = GA_Inquire_memory(); for (round = 0; round < 2; round++) { Integer vals[8], subs[8], nn = 0, so = sort && !(sort == 2 && round), a = gb, b = gc, o = go; for (j = 0; j < nb; j++) for (i = 0; i < T; i++) if (bin[i] == j && pr[i] == me) { vals[nn] = (i * 37 + c * 5 + round * 11) % 50 + 100 * i % 300; subs[nn] = j + 1; nn++; }
    sent(&rb); fill(gb, &rb, round); int core = opt_("core", 0); if (core) sim_resume(); ga_bin_index_(&a, &b, &o, vals, subs, &nn, &so); if (core) sim_quiet(); if (sort && !so) ga_bin_sorter_(&a, &b, &o); GA_Sync();
    if ((c + round) % n == me) { int z = 0, en = T - 1, ld = 1; long *x = malloc(T * 8); NGA_Get(gb, &z, &en, x, &ld); for (j = 0; j < nb; j++) { long wv[8]; int k = 0, l; for (i = 0; i < T; i++) if (bin[i] == j) wv[k++] = (i * 37 + c * 5 + round * 11) % 50 + 100 * i % 300; long *h = x + off[j]; for (i = 1; i < k; i++) for (l = i; l > 0 && wv[l] < wv[l - 1]; l--) { long q = wv[l]; wv[l] = wv[l - 1]; wv[l - 1] = q; } long hh[8]; memcpy(hh, h, k * 8); if (sort) { for (i = 1; i < k; i++) if (h[i] < h[i - 1]) F("bin %d is not sorted, call %d", j, round); } for (i = 1; i < k; i++) for (l = i; l > 0 && hh[l] < hh[l - 1]; l--) { long q = hh[l]; hh[l] = hh[l - 1]; hh[l - 1] = q; } for (i = 0; i < k; i++) if (hh[i] != wv[i]) F("bin %d holds %ld instead of %ld, call %d", j, hh[i], wv[i], round); } free(x); sim_count(0, T); } GA_Sync(); }
  if (GA_Inquire_memory() != m0) F("memory in use changes by %ld", (long)GA_Inquire_memory() - m0); GA_Destroy(gb); GA_Destroy(gc); GA_Destroy(go); }
void scen_main(int rank, int np_) { gboot(); const char *s = sim_scenario(); long c, i, thin = opt_("thin", 1), per = opt_("per", 1);
  if (!strcmp(s, "scan")) { int len = opt_("len", 5), strd = opt_("strd", 1); long M = (1L << len) / thin; sim_set_cases(6 * 2 * ((M + per - 1) / per)); c = sim_begin(); int k = c % 6, var = c / 6 % 2; c /= 12; for (i = 0; i < per && c * per + i < M; i++) { long mask = ((c * per + i) * thin + k + var) % (1L << len); scan(len, mask, K1[k], var, (mask + k * 2 + var) % 7, (mask / 7 + k) % 7 == 0 ? 1 + (mask + k) % 6 : mask % 5 == 0 ? 1 : 0, strd); } }
  else if (!strcmp(s, "select")) { int step = opt_("step", 1); sim_set_cases((7 * 13 * 2 + thin - 1) / thin); c = sim_begin() * thin; int sh = c % 7, k = c / 7 % 13, var = c / 91; if (k == D_GROUP) k = D_REG; for (i = 0; i < (thin > 3 ? 2 : 7); i++) sel(sh, k, var, (i + sh + k) % 7, step); }
  else { int nb = opt_("bins", 2), T = opt_("T", 3), sort = opt_("sort", 0); long M = 1; for (i = 0; i < T; i++) M *= (opt_("perm", 0) ? 1 : (long)nb) * n; M = (M + thin - 1) / thin; sim_set_cases((M + per - 1) / per); c = sim_begin(); for (i = 0; i < per && c * per + i < M; i++) bins((c * per + i) * thin, nb, T, sort); }
  (void)rank; (void)np_; sim_barrier(); GA_Sync(); GA_Terminate(); MPI_Finalize(); }
