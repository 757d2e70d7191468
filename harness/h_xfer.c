/* C01 / C02: every transfer shape of put, get and accumulate against a byte-level reference */
#include "hx.h"
#define REG 8192
#define LREG 8192
static void *tab[16]; static unsigned char *ref[16]; static unsigned char *loc, *locref, *loc2[2]; static unsigned char **base; static int big; static long RS, LS;
static void *seg_d[4096], *seg_s[4096]; 
typedef struct { long so, dof; int len; } sg; static sg SG[70000]; static int nsg;
static unsigned seed;
static unsigned rnd(void) { seed = seed * 1664525u + 1013904223u; return seed >> 8; }
enum { T_BYTE = -1 };
static const int aop[6] = { ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP };
static const char *an[6] = { "int", "long", "float", "double", "complex", "dcomplex" };
static const int esz[6] = { 4, 8, 4, 8, 8, 16 };
static void fill_typed(unsigned char *p, long len, int t, int salt) {
  long i; if (t < 0) { for (i = 0; i < len; i++) p[i] = (unsigned char)(i * 7 + salt * 31 + (i >> 8) * 13 + 1); return; }
  for (i = 0; i < len / esz[t]; i++) { int v = (int)((i * 5 + salt * 3) % 17) - 6, w = (int)((i + salt) % 7) - 2; switch (t) {
    case 0: ((int *)p)[i] = v + (int)i * 65536; break; case 1: ((long *)p)[i] = v + (i << 33); break; case 2: ((float *)p)[i] = v; break; case 3: ((double *)p)[i] = v; break;
    case 4: ((float *)p)[2 * i] = v; ((float *)p)[2 * i + 1] = w; break; case 5: ((double *)p)[2 * i] = v; ((double *)p)[2 * i + 1] = w; break; } } }
static union { int i[2]; long l[2]; float f[2]; double d[2]; } scale;
#define NSC 8
static void set_scale(int t, int k) { static const int A[NSC] = { 1, 2, -3, 1, 0, -1, 4, 0 }, B[NSC] = { 0, 1, -2, 2, 1, 0, 0, -1 }; int a = A[k], b = B[k]; switch (t) { case 0: scale.i[0] = k == 3 ? 70001 : a; break; case 1: scale.l[0] = k == 3 ? (1L << 33) + 3 : a; break; case 2: scale.f[0] = k == 3 ? 0.5 : a; break; case 3: scale.d[0] = k == 3 ? 0.5 : a; break; case 4: scale.f[0] = a; scale.f[1] = b; break; case 5: scale.d[0] = a; scale.d[1] = b; break; } }
static void acc_ref(unsigned char *d, const unsigned char *s, int len, int t) { int i; for (i = 0; i < len / esz[t]; i++) switch (t) {
    case 0: { int x, y; memcpy(&x, d + 4 * i, 4); memcpy(&y, s + 4 * i, 4); x = (int)((unsigned)x + (unsigned)y * (unsigned)scale.i[0]); memcpy(d + 4 * i, &x, 4); break; }
    case 1: { long x, y; memcpy(&x, d + 8 * i, 8); memcpy(&y, s + 8 * i, 8); x += y * scale.l[0]; memcpy(d + 8 * i, &x, 8); break; }
    case 2: { float x, y; memcpy(&x, d + 4 * i, 4); memcpy(&y, s + 4 * i, 4); x += y * scale.f[0]; memcpy(d + 4 * i, &x, 4); break; }
    case 3: { double x, y; memcpy(&x, d + 8 * i, 8); memcpy(&y, s + 8 * i, 8); x += y * scale.d[0]; memcpy(d + 8 * i, &x, 8); break; }
    case 4: { float x[2], y[2]; memcpy(x, d + 8 * i, 8); memcpy(y, s + 8 * i, 8); x[0] += y[0] * scale.f[0] - y[1] * scale.f[1]; x[1] += y[0] * scale.f[1] + y[1] * scale.f[0]; memcpy(d + 8 * i, x, 8); break; }
    case 5: { double x[2], y[2]; memcpy(x, d + 16 * i, 16); memcpy(y, s + 16 * i, 16); x[0] += y[0] * scale.d[0] - y[1] * scale.d[1]; x[1] += y[0] * scale.d[1] + y[1] * scale.d[0]; memcpy(d + 16 * i, x, 16); break; } } }
/* op: 0 put 1 get 2 acc.  api: 0 contiguous 1 strided 2 vector 3 nb contiguous 4 nb strided 5 nb vector 6 value */
static int op, api, typ, tgt; static char desc[300]; static long ncmp; static int lvl, cnt[10], sst[10], dst_[10]; static armci_giov_t gv[8]; static int ngv; static int vkind;
static void prepare(void) { int r; ncmp++;
  for (r = 0; r < n; r++) { if (r == tgt) { fill_typed(ref[r], RS, typ, r + 1); memcpy(base[r], ref[r], RS); } }
  fill_typed(locref, LS, typ, 9); memcpy(loc, locref, LS); }
static void verify(void) { int r, k; long i;
  unsigned char *lp = loc;
  if (op == 1) { /* local buffer must hold the data now */
    for (k = 0; k < nsg; k++) memcpy(locref + SG[k].so, ref[tgt] + SG[k].dof, SG[k].len); }
  else { if (op == 0) for (k = 0; k < nsg; k++) memcpy(ref[tgt] + SG[k].dof, locref + SG[k].so, SG[k].len); else for (k = 0; k < nsg; k++) acc_ref(ref[tgt] + SG[k].dof, locref + SG[k].so, SG[k].len, typ);
    if (memcmp(lp, locref, LS)) sim_fail("%s: the source buffer was changed", desc);
    memset(lp, 0xee, LS); /* reusable now */ ARMCI_Fence(tgt); memcpy(lp, locref, LS); }
  if (memcmp(lp, locref, LS)) { for (i = 0; lp[i] == locref[i]; i++) ; sim_fail("%s: wrong local byte at offset %ld: %d instead of %d", desc, i, lp[i], locref[i]); }
  for (r = 0; r < n; r++) if (memcmp(base[r], ref[r], RS)) { for (i = 0; base[r][i] == ref[r][i]; i++) ; sim_fail("%s: wrong byte at offset %ld of rank %d: %d instead of %d", desc, i, r, base[r][i], ref[r][i]); } }
static void issue(void) { armci_hdl_t h; ARMCI_INIT_HANDLE(&h); int rc = 0, i; unsigned char *L = loc, *Rm = tab[tgt];
  int nb = api >= 3 && api <= 5, a = api == 6 ? 6 : api % 3;
  if (a == 0) { void *l = L + SG[0].so, *r = Rm + SG[0].dof; int b = SG[0].len;
    if (op == 0) rc = nb ? ARMCI_NbPut(l, r, b, tgt, &h) : ARMCI_Put(l, r, b, tgt); else if (op == 1) rc = nb ? ARMCI_NbGet(r, l, b, tgt, &h) : ARMCI_Get(r, l, b, tgt);
    else rc = ARMCI_Acc(aop[typ], &scale, l, r, b, tgt); }
  else if (a == 1) { void *l = L + SG[0].so, *r = Rm + SG[0].dof; int c[10], s1[10], s2[10]; memcpy(c, cnt, sizeof c); memcpy(s1, sst, sizeof c); memcpy(s2, dst_, sizeof c);
    if (op == 0) rc = nb ? ARMCI_NbPutS(l, s1, r, s2, c, lvl, tgt, &h) : ARMCI_PutS(l, s1, r, s2, c, lvl, tgt);
    else if (op == 1) rc = nb ? ARMCI_NbGetS(r, s2, l, s1, c, lvl, tgt, &h) : ARMCI_GetS(r, s2, l, s1, c, lvl, tgt);
    else rc = nb ? ARMCI_NbAccS(aop[typ], &scale, l, s1, r, s2, c, lvl, tgt, &h) : ARMCI_AccS(aop[typ], &scale, l, s1, r, s2, c, lvl, tgt);
    if (!nb && (memcmp(c, cnt, sizeof(int) * (lvl + 1)) || memcmp(s1, sst, sizeof(int) * lvl) || memcmp(s2, dst_, sizeof(int) * lvl))) sim_fail("%s: stride/count arguments changed", desc);
    if (nb) { memset(c, 0, sizeof c); memset(s1, 0, sizeof s1); memset(s2, 0, sizeof s2); } }
  else if (a == 2) { /* the descriptor may be reused once the call returned */
    if (op == 0) rc = nb ? ARMCI_NbPutV(gv, ngv, tgt, &h) : ARMCI_PutV(gv, ngv, tgt); else if (op == 1) rc = nb ? ARMCI_NbGetV(gv, ngv, tgt, &h) : ARMCI_GetV(gv, ngv, tgt); else rc = nb ? ARMCI_NbAccV(aop[typ], &scale, gv, ngv, tgt, &h) : ARMCI_AccV(aop[typ], &scale, gv, ngv, tgt); }
  else { void *l = L + SG[0].so, *r = Rm + SG[0].dof; int i_; long l_; float f_; double d_;
    switch (vkind * 3 + op) {
      case 0: memcpy(&i_, l, 4); ARMCI_PutValueInt(i_, r, tgt); break; case 3: memcpy(&l_, l, 8); ARMCI_PutValueLong(l_, r, tgt); break; case 6: memcpy(&f_, l, 4); ARMCI_PutValueFloat(f_, r, tgt); break; case 9: memcpy(&d_, l, 8); ARMCI_PutValueDouble(d_, r, tgt); break;
      case 1: i_ = ARMCI_GetValueInt(r, tgt); memcpy(l, &i_, 4); break; case 4: l_ = ARMCI_GetValueLong(r, tgt); memcpy(l, &l_, 8); break; case 7: f_ = ARMCI_GetValueFloat(r, tgt); memcpy(l, &f_, 4); break; case 10: d_ = ARMCI_GetValueDouble(r, tgt); memcpy(l, &d_, 8); break; } }
  CK(rc == 0, "%s: return code %d", desc, rc);
  if (nb) { rc = ARMCI_Wait(&h); CK(rc == 0, "%s: wait returned %d", desc, rc); } (void)i; }
static void step(void) { sim_note("%s", desc); long h = op * 8 + api; int k; prepare(); issue(); verify(); for (k = 0; k < nsg && k < 64; k++) h = h * 1000003 + SG[k].so * 31 + SG[k].dof * 17 + SG[k].len; sim_state(h * 64 + typ * 16 + tgt); }
static void contig(void) { static const int off[] = { 0, 1, 8, 64 }, len[] = { 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1024, 1025, 4000 }; unsigned i, j, k; int e = typ < 0 ? 1 : esz[typ], s;
  for (i = 0; i < sizeof len / 4; i++) for (j = 0; j < 4; j++) for (k = 0; k < 4; k++) { if (len[i] * e > 7000) continue; nsg = 1; SG[0] = (sg){ off[j] * e, off[k] * e, len[i] * e };
    for (s = 0; s < (op == 2 ? 3 : 1); s++) { int q = s < 2 ? s : 2 + (i + j + k) % (NSC - 2); if (op == 2) set_scale(typ, q); snprintf(desc, sizeof desc, "op %d api %d type %d to rank %d: %d bytes at local offset %d, remote offset %d, scale %d", op, api, typ, tgt, SG[0].len, off[j] * e, off[k] * e, q); step(); } }
  if (big) { static const int bl[] = { 8191, 8192, 8193, 16384, 65536, 100003 }; for (i = 0; i < 6; i++) { long L = bl[i] / e * e; nsg = 1; SG[0] = (sg){ e, 3 * e, L }; if (op == 2) set_scale(typ, 1); snprintf(desc, sizeof desc, "op %d api %d type %d to rank %d: %ld bytes", op, api, typ, tgt, L); step(); } } }
static void run_strided(long so, long dof) { int idx[10] = { 0 }, i; nsg = 0;
  for (;;) { long s = so, d = dof; for (i = 0; i < lvl; i++) { s += (long)idx[i] * sst[i]; d += (long)idx[i] * dst_[i]; } SG[nsg++] = (sg){ s, d, cnt[0] }; if (s + cnt[0] > LS || d + cnt[0] > RS || nsg >= 69999) return;
    for (i = 0; i < lvl; i++) { if (++idx[i] < cnt[i + 1]) break; idx[i] = 0; } if (i == lvl) break; }
  int o = snprintf(desc, sizeof desc, "op %d api %d type %d to rank %d: strided, %d levels, counts", op, api, typ, tgt, lvl); for (i = 0; i <= lvl; i++) o += snprintf(desc + o, sizeof desc - o, " %d", cnt[i]); o += snprintf(desc + o, sizeof desc - o, " local strides"); for (i = 0; i < lvl; i++) o += snprintf(desc + o, sizeof desc - o, " %d", sst[i]); o += snprintf(desc + o, sizeof desc - o, " remote strides"); for (i = 0; i < lvl; i++) o += snprintf(desc + o, sizeof desc - o, " %d", dst_[i]);
  step(); }
static void strided(int deep) { int e = typ < 0 ? 1 : esz[typ], l, c0, m, p, i; static const int c0s[] = { 1, 3, 8, 24 };
  int maxl = deep ? 3 : 2;
  for (l = 0; l <= maxl; l++) { lvl = l; int nm = 1; for (i = 0; i < l; i++) nm *= (l == 3 ? 2 : 3); int nc0 = l < 2 ? 4 : 2;
    for (c0 = 0; c0 < nc0; c0++) for (m = 0; m < nm; m++) for (p = 0; p < (1 << (2 * l)); p++) { int mm = m; cnt[0] = c0s[c0] * e; for (i = 1; i <= l; i++) { int b = l == 3 ? 2 : 3; cnt[i] = 1 + mm % b; mm /= b; }
      long s = cnt[0], d = cnt[0]; for (i = 0; i < l; i++) { if (p >> (2 * i) & 1) s += e; if (p >> (2 * i + 1) & 1) d += 2 * e; sst[i] = s; dst_[i] = d; s *= cnt[i + 1]; d *= cnt[i + 1]; }
      if (op == 2) set_scale(typ, (m * 3 + p) % NSC); run_strided(e * (p & 1), e * ((p >> 1) & 3)); } }
  for (l = 3; l <= 7; l++) for (p = 0; p < 4; p++) { lvl = l; cnt[0] = 2 * e; for (i = 1; i <= l; i++) cnt[i] = (i + p) % 3 == 0 ? 1 : l > 6 && i > 5 ? 1 : 2; long s = cnt[0], d = cnt[0]; for (i = 0; i < l; i++) { if ((i + p) & 1) s += e; if ((i + p) & 2) d += e; sst[i] = s; dst_[i] = d; s *= cnt[i + 1]; d *= cnt[i + 1]; } if (op == 2) set_scale(typ, p % 3); run_strided(0, 0); }
  /* strides larger than the inner extent, counts of one in the middle */
  for (p = 0; p < 8; p++) { lvl = 2; cnt[0] = 5 * e; cnt[1] = p & 1 ? 1 : 4; cnt[2] = p & 2 ? 1 : 5; sst[0] = 5 * e; sst[1] = p & 4 ? 20 * e : 21 * e; dst_[0] = 8 * e; dst_[1] = 50 * e; if (op == 2) set_scale(typ, 2); run_strided(2 * e, e); }
  if (big) { for (p = 0; p < 6; p++) { lvl = 1 + p % 3; cnt[0] = 1200 / e * e + (p & 1 ? 16 : 0); cnt[1] = 9; cnt[2] = 3; cnt[3] = 2; sst[0] = cnt[0] + 16 * (p & 1); dst_[0] = cnt[0] + 32; sst[1] = sst[0] * 9; dst_[1] = dst_[0] * 10; sst[2] = sst[1] * 3; dst_[2] = dst_[1] * 3 + 16; if (op == 2) set_scale(typ, 1); run_strided(16, 0); } } }
static void vec_one(int nd, int c, int b, int mode) { int e = typ < 0 ? 1 : esz[typ], d, i, k = 0; nsg = 0; ngv = nd; long so = e, ro = 0; int o = snprintf(desc, sizeof desc, "op %d api %d type %d to rank %d: vector, %d descriptors, %d segments of %d bytes, layout %d", op, api, typ, tgt, nd, c, b * e, mode); (void)o;
  for (d = 0; d < nd; d++) { int cc = c + (mode & 4 ? d : 0), bb = (b + (mode & 8 ? d : 0)) * e; gv[d].ptr_array_len = cc; gv[d].bytes = bb; gv[d].src_ptr_array = &seg_s[k]; gv[d].dst_ptr_array = &seg_d[k];
    for (i = 0; i < cc; i++) { long s = so, r = ro; if (mode & 1) s = so + (cc - 1 - 2 * i) * bb + (long)i * bb; so += 0; (void)s; long sl = (mode & 1) ? so + (long)(cc - 1 - i) * bb : so + (long)i * (bb + e), rl = (mode & 2) ? ro + (long)(cc - 1 - i) * (bb + 2 * e) : ro + (long)i * (bb + e); (void)r;
      SG[nsg++] = (sg){ sl, rl, bb }; void *L = loc + sl, *Rr = (char *)tab[tgt] + rl; if (op == 1) { seg_s[k] = Rr; seg_d[k] = L; } else { seg_s[k] = L; seg_d[k] = Rr; } k++; }
    so += (long)cc * (bb + e) + e; ro += (long)cc * (bb + 2 * e) + 3 * e; }
  if (so > LS || ro > RS) return; if (op == 2) set_scale(typ, mode % NSC); step(); }
static void vec(void) { int nd, c, b, m; static const int bs[] = { 1, 2, 5, 16, 33 }; for (nd = 1; nd <= 3; nd++) for (c = 1; c <= 4; c++) for (b = 0; b < 5; b++) for (m = 0; m < 16; m++) vec_one(nd, c, bs[b], m);
  for (m = 0; m < 4; m++) { vec_one(1, 17, 3, m); vec_one(2, 40, 1, m); } if (big) { vec_one(1, 200, 40, 0); vec_one(2, 30, 700, 3); vec_one(3, 3, 5000 / (typ < 0 ? 1 : esz[typ]), 12); } }
static void value(void) { static const int vs[] = { 4, 8, 4, 8 }; int o; for (vkind = 0; vkind < 4; vkind++) for (o = 0; o < 6; o++) { nsg = 1; SG[0] = (sg){ o * vs[vkind], (6 - o) * vs[vkind], vs[vkind] }; snprintf(desc, sizeof desc, "op %d value of kind %d to rank %d offset %ld", op, vkind, tgt, SG[0].dof); step(); } }
static void setup(void) { big = sim_optint("big", 0); RS = big ? 262144 : REG; LS = RS; ARMCI_Malloc(tab, RS + 64); base = pub()->base; int r; for (r = 0; r < n; r++) { ref[r] = malloc(RS); fill_typed(ref[r], RS, -1, r); } memcpy(tab[me], ref[me], RS);
  loc = sim_optint("armcilocal", 0) ? ARMCI_Malloc_local(LS) : malloc(LS); locref = malloc(LS); ARMCI_Barrier(); }
static int begin_pub(int ncase) { sim_set_cases(ncase); long c = sim_begin(); base[me] = tab[me]; sim_barrier(); return (int)c; }
static void shapes(int accum) { int deep = sim_optint("deep", 0), org = sim_optint("origin", 0); setup();
  int napi = accum ? 5 : 13, nt = accum ? 6 : 1; int nc = napi * nt * n; long c = begin_pub(nc);
  if (me == org) { tgt = c % n; c /= n; if (accum) { static const int ap[5] = { 0, 1, 2, 4, 5 }; op = 2; api = ap[c % 5]; typ = c / 5; } else { typ = -1; op = c >= 7 && c != 12; api = op ? c - 7 : c; if (c == 12) { op = 1; api = 5; } else if (c > 6) api = c == 11 ? 4 : c == 10 ? 3 : c - 7; if (c == 6) { op = 2; } }
    if (!accum && op == 2) { /* values */ for (op = 0; op < 2; op++) { api = 6; value(); } }
    else switch (api % 3) { case 0: contig(); break; case 1: strided(deep); break; case 2: vec(); break; }
    sim_count(0, ncmp); }
  ARMCI_Barrier(); }
/* two origins write interleaved pieces of a third process (and of each other); every schedule up to the budget */
static void conc(void) { setup(); int nshape = 6, nop = 2; long c = begin_pub(nshape * nop * 2); int sh = c % nshape; op = (c / nshape) % nop; int cross = c / (nshape * nop); int T = cross ? 1 - me : n - 1; int norg = 2; typ = -1; int i, k; tgt = T;
  if (me < norg) { /* shape: segments s.t. origin o owns pieces o, o+2, o+4, ... */
    int b = sh == 0 ? 24 : sh == 1 ? 8 : sh == 2 ? 5 : sh == 3 ? 700 : sh == 4 ? 300 : 1, np_ = sh == 0 || sh == 3 ? 1 : 4;
    fill_typed(locref, LS, -1, 20 + me); memcpy(loc, locref, LS); lvl = 1; cnt[0] = b; cnt[1] = np_; sst[0] = b + 3; dst_[0] = 2 * b; nsg = 0;
    for (i = 0; i < np_; i++) SG[nsg++] = (sg){ (long)i * (b + 3), (long)(2 * i + me) * b, b };
    api = sh == 2 || sh == 4 ? 2 : sh == 0 || sh == 3 ? 0 : 1; if (sh == 5) { op = op; }
    ngv = 1; gv[0].ptr_array_len = np_; gv[0].bytes = b; gv[0].src_ptr_array = seg_s; gv[0].dst_ptr_array = seg_d; for (k = 0; k < nsg; k++) { void *L = loc + SG[k].so, *Rr = (char *)tab[T] + SG[k].dof; if (op == 1) seg_s[k] = Rr, seg_d[k] = L; else seg_s[k] = L, seg_d[k] = Rr; }
    snprintf(desc, sizeof desc, "concurrent %s shape %d of rank %d on rank %d", op ? "get" : "put", sh, me, T); issue();
    if (op == 1) { for (k = 0; k < nsg; k++) memcpy(locref + SG[k].so, ref[T] + SG[k].dof, SG[k].len); if (memcmp(loc, locref, LS)) { for (i = 0; loc[i] == locref[i]; i++) ; sim_fail("%s: wrong local byte at %d", desc, i); } }
    else memset(loc, 0xee, LS); }
  ARMCI_Barrier();
  { int r; unsigned char *x = malloc(RS); for (r = 0; r < n; r++) fill_typed(ref[r], RS, -1, r); if (op == 0 || me >= norg) {}
    if (((c / nshape) % nop) == 0) { int b = sh == 0 ? 24 : sh == 1 ? 8 : sh == 2 ? 5 : sh == 3 ? 700 : sh == 4 ? 300 : 1, np_ = sh == 0 || sh == 3 ? 1 : 4; int o; for (o = 0; o < norg; o++) { int TT = cross ? 1 - o : n - 1; fill_typed(x, RS, -1, 20 + o); for (i = 0; i < np_; i++) memcpy(ref[TT] + (2 * i + o) * b, x + (long)i * (b + 3), b); } }
    for (i = 0; i < RS; i++) if (((unsigned char *)tab[me])[i] != ref[me][i]) sim_fail("concurrent shape %d op %d: wrong byte at %d of rank %d", sh, (int)((c / nshape) % nop), i, me); free(x); }
  ARMCI_Barrier(); }
void scen_main(int r, int np) { const char *s = sim_scenario(); boot(); if (!strcmp(s, "shapes")) shapes(0); else if (!strcmp(s, "accshapes")) shapes(1); else if (!strcmp(s, "conc")) conc(); }
