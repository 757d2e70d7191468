/* G15: matrix multiply, transpose, symmetrize and transposed patch copies
 * against the textbook definition on reference arrays.  All data are small
 * integers, so every result is exact in every element type. */
#include "hga.h"
static int KA, KB, KC, var, t; static char w[300];
typedef struct { double r, i; } Z;
static Z zmul(Z a, Z b) { Z c = { a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r }; return c; }
static void data(RA *r, int salt) { long k; for (k = 0; k < r->N; k++) { r->v[2 * k] = (k * 7 + salt * 5) % 9 - 4; r->v[2 * k + 1] = CPLX(r->t) ? (k * 3 + salt) % 5 - 2 : 0; } }
static void setg(int g, int k, RA *r) { local_all(g, k, r, 1, "set"); }
static void chk(int g, int k, RA *r, const char *what) { char b[500]; snprintf(b, sizeof b, "%s: %s", w, what); local_all(g, k, r, 0, b); }
static Z at(RA *a, const int *s) { Z z = { RE(*a, s), IM(*a, s) }; return z; }
static void put(RA *a, const int *s, Z z) { RE(*a, s) = z.r; IM(*a, s) = CPLX(a->t) ? z.i : 0; }
/* element (i,j) of a matrix laid over dimensions p < q of the array, the others fixed at u; tr: the array holds the transpose */
typedef struct { int p, q, u[MD], oi, oj, tr; } Lay;
static void pos(Lay *l, int nd, int i, int j, int *s) { int x; for (x = 0; x < nd; x++) s[x] = l->u[x]; i += l->oi; j += l->oj; s[l->p] = l->tr ? j : i; s[l->q] = l->tr ? i : j; }
static void reference(RA *a, Lay *la, RA *b, Lay *lb, RA *c, Lay *lc, int m, int nn, int k, Z al, Z be) { int i, j, l, s[MD], q[MD]; for (i = 0; i < m; i++) for (j = 0; j < nn; j++) { Z x = { 0, 0 }; for (l = 0; l < k; l++) { pos(la, a->nd, i, l, s); pos(lb, b->nd, l, j, q); Z p = zmul(at(a, s), at(b, q)); x.r += p.r; x.i += p.i; } x = zmul(al, x); pos(lc, c->nd, i, j, s); Z o = zmul(be, at(c, s)); x.r += o.r; x.i += o.i; put(c, s, x); } }
static Z SCAL[6][2] = { { { 1, 0 }, { 0, 0 } }, { { 1, 0 }, { 1, 0 } }, { { -2, 0 }, { 3, 0 } }, { { 2, 1 }, { 0, 0 } }, { { 1, -1 }, { -2, 1 } }, { { 0, 0 }, { 2, 0 } } };
static char sb[4][16]; static void *sc(Z z, int k) { pe(sb[k], t, 0, z.r, z.i); return sb[k]; }
static void gemm(int v64, char ta, char tb, int m, int nn, int k, Z al, int ga, int gb, Z be, int gc) {
#define GM(X, T, A, B) do { if (v64) GA_##X##gemm64(ta, tb, m, nn, k, A, ga, gb, B, gc); else GA_##X##gemm(ta, tb, m, nn, k, A, ga, gb, B, gc); } while (0)
  SingleComplex ca = { al.r, al.i }, cb = { be.r, be.i }; DoubleComplex za = { al.r, al.i }, zb = { be.r, be.i };
  switch (t) { case 3: GM(S, float, al.r, be.r); break; case 4: GM(D, double, al.r, be.r); break; case 5: GM(C, x, ca, cb); break; default: GM(Z, x, za, zb); } }
static Z cx(Z z) { if (!CPLX(t)) z.i = 0; return z; }
/* ex: how much larger the arrays are than the multiplied matrices; vec: B and C are one-dimensional (n = 1) */
static void mm(int m, int nn, int k, int ta, int tb, int ex, int patch) { int da[2] = { (ta ? k : m) + ex, (ta ? m : k) + ex }, db[2] = { (tb ? nn : k) + ex, (tb ? k : nn) + ex }, dc[2] = { m + ex, nn + ex }, x, salt = 1, sel = m + nn * 2 + k * 3 + ta + tb + KA + KB + t;
  sprintf(w, "%s,%s,%s var %d type %s %dx%dx%d %c%c arrays +%d", DN[KA], DN[KB], DN[KC], var, TN[t], m, nn, k, ta ? 't' : 'n', tb ? 't' : 'n', ex);
  int ga = mk(KA, TY[t], 2, da, var, "a"), gb = mk(KB, TY[t], 2, db, var, "b"), gc = mk(KC, TY[t], 2, dc, var, "c"); RA a = ra(t, 2, da), b = ra(t, 2, db), c = ra(t, 2, dc);
  for (x = 0; x < (patch ? 4 : 3); x++) { int f = patch ? sel + x * 5 + x / 2 : 0; Lay la = { 0, 1, { 0 }, ex ? f % (ex + 1) : 0, ex ? f / 2 % (ex + 1) : 0, ta }, lb = { 0, 1, { 0 }, ex ? f / 3 % (ex + 1) : 0, ex ? f / 5 % (ex + 1) : 0, tb }, lc = { 0, 1, { 0 }, ex ? f / 4 % (ex + 1) : 0, ex && patch ? (f / 7 + x) % (ex + 1) : 0, 0 }; Z al = cx(SCAL[(sel + x * 2) % 6][0]), be = cx(SCAL[(sel + x * 2) % 6][1]); char what[200];
    data(&a, salt++); data(&b, salt++); data(&c, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c); reference(&a, &la, &b, &lb, &c, &lc, m, nn, k, al, be);
    if (!patch) { gemm(x & 1, ta ? (x ? 'T' : 't') : (x ? 'N' : 'n'), tb ? 't' : 'n', m, nn, k, al, ga, gb, be, gc); sprintf(what, "gemm alpha %g,%g beta %g,%g", al.r, al.i, be.r, be.i); }
    else { int64_t q[6][2]; int p[6][2], y, z; Lay *L[3] = { &la, &lb, &lc }; int R[3] = { m, k, m }, C_[3] = { k, nn, nn }; for (y = 0; y < 3; y++) { p[2 * y][0] = L[y]->oi; p[2 * y][1] = L[y]->oj; p[2 * y + 1][0] = L[y]->oi + R[y] - 1; p[2 * y + 1][1] = L[y]->oj + C_[y] - 1; } for (y = 0; y < 6; y++) for (z = 0; z < 2; z++) q[y][z] = p[y][z];
      sprintf(what, "matmul_patch alpha %g,%g beta %g,%g A (%s) B (%s) C (%s)", al.r, al.i, be.r, be.i, sv(2, p[0]), sv(2, p[2]), sv(2, p[4]));
      if (x & 1) NGA_Matmul_patch64(ta ? 'T' : 'N', tb ? 'T' : 'N', sc(al, 0), sc(be, 1), ga, q[0], q[1], gb, q[2], q[3], gc, q[4], q[5]); else NGA_Matmul_patch(ta ? 't' : 'n', tb ? 't' : 'n', sc(al, 0), sc(be, 1), ga, p[0], p[1], gb, p[2], p[3], gc, p[4], p[5]); }
    chk(gc, KC, &c, what); chk(ga, KA, &a, "first operand"); chk(gb, KB, &b, "second operand"); }
  GA_Destroy(gc); GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); free(c.v); }
/* GA_Matmul_patch: documented with Fortran index order: matrices of a C array are its transposes */
static void fpatch(int m, int nn, int k, int ta, int tb, int ex) { int da[2] = { (ta ? m : k) + ex, (ta ? k : m) + ex }, db[2] = { (tb ? k : nn) + ex, (tb ? nn : k) + ex }, dc[2] = { nn + ex, m + ex }, x, salt = 3; sprintf(w, "GA_Matmul_patch %s,%s,%s var %d type %s %dx%dx%d %c%c +%d", DN[KA], DN[KB], DN[KC], var, TN[t], m, nn, k, ta ? 't' : 'n', tb ? 't' : 'n', ex);
  int ga = mk(KA, TY[t], 2, da, var, "a"), gb = mk(KB, TY[t], 2, db, var, "b"), gc = mk(KC, TY[t], 2, dc, var, "c"); RA a = ra(t, 2, da), b = ra(t, 2, db), c = ra(t, 2, dc);
  for (x = 0; x < 3; x++) { int f = m + nn + k + x * 3; Lay la = { 0, 1, { 0 }, ex ? f % (ex + 1) : 0, ex ? f / 2 % (ex + 1) : 0, !ta }, lb = { 0, 1, { 0 }, ex ? f / 3 % (ex + 1) : 0, ex ? f / 5 % (ex + 1) : 0, !tb }, lc = { 0, 1, { 0 }, ex ? f / 4 % (ex + 1) : 0, ex ? (f / 7 + x) % (ex + 1) : 0, 1 }; Z al = cx(SCAL[(f + t) % 6][0]), be = cx(SCAL[(f + t) % 6][1]); char what[200];
    data(&a, salt++); data(&b, salt++); data(&c, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c); reference(&a, &la, &b, &lb, &c, &lc, m, nn, k, al, be); sprintf(what, "alpha %g,%g beta %g,%g offset %d", al.r, al.i, be.r, be.i, x);
#define FP(S_) GA_Matmul_patch##S_(ta ? 't' : 'n', tb ? 't' : 'n', sc(al, 0), sc(be, 1), ga, la.oi, la.oi + m - 1, la.oj, la.oj + k - 1, gb, lb.oi, lb.oi + k - 1, lb.oj, lb.oj + nn - 1, gc, lc.oi, lc.oi + m - 1, lc.oj, lc.oj + nn - 1)
    if (x & 1) FP(64); else FP();
    chk(gc, KC, &c, what); chk(ga, KA, &a, "first operand"); chk(gb, KB, &b, "second operand"); }
  GA_Destroy(gc); GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); free(c.v); }
/* matrices laid over two of three dimensions; extents at least 2 (a vector in more than two dimensions has no orientation) */
static void mm3(int m, int nn, int k, int ta, int tb, int cfg) { static const int PQ[3][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 } }; int pa = cfg % 3, pb = cfg / 3 % 3, pc = (pa + pb + cfg) % 3, x, y, salt = 2, P_[3] = { pa, pb, pc }, R[3] = { m, k, m }, C_[3] = { k, nn, nn }, T[3] = { ta, tb, 0 }, K[3] = { KA, KB, KC }, dd[3][3], g[3]; RA r[3]; Lay L[3]; static const char *N_[3] = { "a", "b", "c" };
  sprintf(w, "%s,%s,%s var %d type %s %dx%dx%d %c%c in dimensions (%d,%d),(%d,%d),(%d,%d)", DN[KA], DN[KB], DN[KC], var, TN[t], m, nn, k, ta ? 't' : 'n', tb ? 't' : 'n', PQ[pa][0], PQ[pa][1], PQ[pb][0], PQ[pb][1], PQ[pc][0], PQ[pc][1]);
  for (y = 0; y < 3; y++) { dd[y][0] = dd[y][1] = dd[y][2] = 2; dd[y][PQ[P_[y]][0]] = (T[y] ? C_[y] : R[y]) + 1; dd[y][PQ[P_[y]][1]] = (T[y] ? R[y] : C_[y]) + 1; g[y] = mk(K[y], TY[t], 3, dd[y], var, N_[y]); r[y] = ra(t, 3, dd[y]); }
  for (x = 0; x < 3; x++) { int p[6][3], f = cfg + x * 3 + m; for (y = 0; y < 3; y++) { memset(&L[y], 0, sizeof L[y]); L[y].p = PQ[P_[y]][0]; L[y].q = PQ[P_[y]][1]; L[y].tr = T[y]; L[y].u[0] = L[y].u[1] = L[y].u[2] = (f + y) & 1; L[y].oi = (f >> (y + 1)) & 1; L[y].oj = (f >> y) & 1; data(&r[y], salt++); setg(g[y], K[y], &r[y]); int z; for (z = 0; z < 3; z++) p[2 * y][z] = p[2 * y + 1][z] = L[y].u[z]; p[2 * y][L[y].p] = L[y].oi; p[2 * y][L[y].q] = L[y].oj; p[2 * y + 1][L[y].p] = L[y].oi + R[y] - 1; p[2 * y + 1][L[y].q] = L[y].oj + C_[y] - 1; }
    Z al = cx(SCAL[(f + t) % 6][0]), be = cx(SCAL[(f + t) % 6][1]); char what[200]; reference(&r[0], &L[0], &r[1], &L[1], &r[2], &L[2], m, nn, k, al, be); sprintf(what, "matmul_patch alpha %g,%g beta %g,%g A (%s) B (%s) C (%s)", al.r, al.i, be.r, be.i, sv(3, p[0]), sv(3, p[2]), sv(3, p[4]));
    NGA_Matmul_patch(ta ? 't' : 'n', tb ? 't' : 'n', sc(al, 0), sc(be, 1), g[0], p[0], p[1], g[1], p[2], p[3], g[2], p[4], p[5]); for (y = 2; y >= 0; y--) chk(g[y], K[y], &r[y], y == 2 ? what : "an operand"); }
  for (y = 2; y >= 0; y--) { GA_Destroy(g[y]); free(r[y].v); } }
static void transpose(int m, int nn) { int da[2] = { m, nn }, db[2] = { nn, m }, s[2], q[2], salt; sprintf(w, "%s,%s var %d type %s %dx%d", DN[KA], DN[KB], var, TN[t], m, nn); int ga = mk(KA, TY[t], 2, da, var, "a"), gb = mk(KB, TY[t], 2, db, var, "b"); RA a = ra(t, 2, da), b = ra(t, 2, db);
  for (salt = 0; salt < 2; salt++) { data(&a, salt); data(&b, salt + 5); setg(ga, KA, &a); setg(gb, KB, &b); for (s[0] = 0; s[0] < m; s[0]++) for (s[1] = 0; s[1] < nn; s[1]++) { q[0] = s[1]; q[1] = s[0]; put(&b, q, at(&a, s)); } GA_Transpose(ga, gb); chk(gb, KB, &b, "GA_Transpose"); chk(ga, KA, &a, "GA_Transpose source"); }
  GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); }
/* copy_patch with 't': the patch is transposed (dimensions reversed) */
static void tcopy(int nd, const int *da) { int db[MD], i, s[MD], q[MD], lo[MD] = { 0 }, hi[MD] = { 0 }, l[MD], h[MD], salt = 1, step = 0, st = opt_("ust", 1); for (i = 0; i < nd; i++) db[i] = da[nd - 1 - i] + 1; sprintf(w, "%s,%s var %d type %s dims (%s)", DN[KA], DN[KB], var, TN[t], sv(nd, da)); int ga = mk(KA, TY[t], nd, da, var, "a"), gb = mk(KB, TY[t], nd, db, var, "b"); RA a = ra(t, nd, da), b = ra(t, nd, db);
  do { if (step++ % st) continue; int o = step & 1; for (i = 0; i < nd; i++) { l[i] = lo[nd - 1 - i] + (o ? 1 : 0); h[i] = hi[nd - 1 - i] + (o ? 1 : 0); } data(&a, salt++); data(&b, salt++); setg(ga, KA, &a); setg(gb, KB, &b); memcpy(s, lo, sizeof s); do { for (i = 0; i < nd; i++) q[i] = s[nd - 1 - i] + (o ? 1 : 0); put(&b, q, at(&a, s)); } while (nx(nd, lo, hi, s));
    char what[200]; sprintf(what, "transposed copy (%s)-(%s) to (%s)-(%s)", sv(nd, lo), sv(nd, hi), sv(nd, l), sv(nd, h)); if (step & 2) { int64_t x[4][MD]; for (i = 0; i < nd; i++) { x[0][i] = lo[i]; x[1][i] = hi[i]; x[2][i] = l[i]; x[3][i] = h[i]; } NGA_Copy_patch64('T', ga, x[0], x[1], gb, x[2], x[3]); } else NGA_Copy_patch('t', ga, lo, hi, gb, l, h); chk(gb, KB, &b, what); chk(ga, KA, &a, "transposed copy source"); } while (nxpatch(nd, da, lo, hi));
  GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); }
static void symm(int nd, int m) { int d[3] = { m, m, 3 }, s[3] = { 0 }, q[3], lo[3] = { 0 }, hi[3] = { m - 1, m - 1, 2 }, salt; sprintf(w, "%s var %d dim %d rank %d", DN[KA], var, m, nd); int g = mk(KA, TY[t], nd, d, var, "s"); RA a = ra(t, nd, d), b = ra(t, nd, d); for (salt = 0; salt < 2; salt++) { data(&a, salt); setg(g, KA, &a); memset(s, 0, sizeof s); do { memcpy(q, s, sizeof q); q[0] = s[1]; q[1] = s[0]; Z x = at(&a, s), y = at(&a, q); x.r = 0.5 * (x.r + y.r); put(&b, s, x); } while (nx(nd, lo, hi, s)); GA_Symmetrize(g); chk(g, KA, &b, "GA_Symmetrize"); } GA_Destroy(g); free(a.v); free(b.v); }
static const int SZ[8] = { 2, 3, 1, 5, 4, 7, 9, 11 };
void scen_main(int rank, int np_) { gboot(); int sub = opt_("sub", 0); if (sub) { int l[16], c_ = 0, i_; for (i_ = n - 1; i_ >= 0; i_--) if (i_ != 1) l[c_++] = i_; if (me != 1) { int h = GA_Pgroup_create(l, c_); GA_Pgroup_set_default(h); } else in = 0; } part_begin(); const char *S = sim_scenario(); int ns = opt_("ns", 4), nd = opt_("nd", 2), thin = opt_("thin", 1), ok = 1; long tot, c0, c;
  int isg = !strcmp(S, "gemm") || !strcmp(S, "mpatch") || !strcmp(S, "fpatch"), is3 = !strcmp(S, "mpatch3");
  if (isg) tot = ND * 4 * 4 * (long)ns * ns * ns; else if (is3) tot = ND * 4 * 4 * 9 * (long)ns; else if (!strcmp(S, "symm")) tot = ND * 2 * ns; else if (!strcmp(S, "tcopy")) { int i; tot = ND * ND * 2; for (i = 0; i < nd; i++) tot *= ns; } else tot = ND * ND * 2 * (long)ns * ns;
  tot = (tot + thin - 1) / thin; sim_set_cases(tot); c0 = c = sim_begin(); c = c * thin; if (thin > 1) c += (c / thin * 5) % thin;
  if (!in) goto end;
  if (isg || is3) { KA = c % ND; c /= ND; int which = c % 4; c /= 4; KB = KC = KA; if (which) { if (which != 1) KA = D_REG; if (which != 2) KB = D_REG; if (which != 3) KC = D_REG; if (KA == D_REG && KB == D_REG && KC == D_REG) KA = KB = KC = D_CHUNK1; } int ta = c & 1, tb = c >> 1 & 1; c /= 4; var = (c0 / 4) & 1; t = 3 + (c0 / 3 + c0 / 7) % 4;
    int gk = (KA == D_GROUP) + (KB == D_GROUP) + (KC == D_GROUP); if (gk) ok = 0; int blk = BLOCKY(KA) || BLOCKY(KB) || BLOCKY(KC); if ((BLOCKY(KC) || (blk && !strcmp(S, "mpatch"))) && (ta || tb || is3)) ok = 0; /* rejected loudly */ int m, nn, k, ex = !strcmp(S, "gemm") ? (c0 / 5) % 3 == 2 : 2;
    if (sub && blk) ok = 0;
    if (is3) { int cf = c % 9; c /= 9; m = 2 + c % 3; nn = 2 + (c + cf) % 3; k = 2 + (c + ta) % 3; if (blk) ok = 0; int d1[3] = { 3, 3, 2 }; if (ok && (!kind_ok(KA, 3, d1, var) || !kind_ok(KB, 3, d1, var) || !kind_ok(KC, 3, d1, var))) ok = 0; if (KA == D_GHOST || KB == D_GHOST || KC == D_GHOST || KA == D_GHIRREG || KB == D_GHIRREG || KC == D_GHIRREG) ok = 0; if (ok) mm3(m, nn, k, ta, tb, cf); }
    else { m = SZ[c % ns]; c /= ns; nn = SZ[c % ns]; c /= ns; k = SZ[c % ns]; int da[2] = { (ta ? k : m) + ex, (ta ? m : k) + ex }, db[2] = { (tb ? nn : k) + ex, (tb ? k : nn) + ex }, dc[2] = { m + ex, nn + ex }, fa[2] = { da[1], da[0] }; if (!strcmp(S, "fpatch")) { da[0] = (ta ? m : k) + ex; da[1] = (ta ? k : m) + ex; db[0] = (tb ? k : nn) + ex; db[1] = (tb ? nn : k) + ex; dc[0] = nn + ex; dc[1] = m + ex; } (void)fa;
      if (ok && (!kind_ok(KA, 2, da, var) || !kind_ok(KB, 2, db, var) || !kind_ok(KC, 2, dc, var))) ok = 0; 
      if (ok) { if (!strcmp(S, "fpatch")) fpatch(m, nn, k, ta, tb, ex); else mm(m, nn, k, ta, tb, ex, !strcmp(S, "mpatch")); } } }
  else if (!strcmp(S, "symm")) { KA = c % ND; c /= ND; var = c & 1; c /= 2; int m = SZ[c % ns], d1[3] = { m, m, 3 }; t = 4; if (sub && BLOCKY(KA)) ok = 0; if (KA == D_GROUP || (nd > 2 && BLOCKY(KA)) || !kind_ok(KA, nd, d1, var)) ok = 0; if (ok) symm(nd, m); }
  else { KA = c % ND; c /= ND; KB = c % ND; c /= ND; var = c & 1; c /= 2; t = (c0 / 5 + c0) % 7; if (sub && (BLOCKY(KA) || BLOCKY(KB))) ok = 0; if (KA == D_GROUP || KB == D_GROUP) ok = 0; int da[MD], db[MD], i; if (!strcmp(S, "tcopy")) { for (i = 0; i < nd; i++) { da[i] = 1 + c % ns; c /= ns; } for (i = 0; i < nd; i++) db[i] = da[nd - 1 - i] + 1; if (BLOCKY(KA) || BLOCKY(KB)) ok = 0; if (ok && kind_ok(KA, nd, da, var) && kind_ok(KB, nd, db, var)) tcopy(nd, da); } else { da[0] = db[1] = SZ[c % ns]; c /= ns; da[1] = db[0] = SZ[c % ns]; if (ok && kind_ok(KA, 2, da, var) && kind_ok(KB, 2, db, var)) transpose(da[0], da[1]); } }
end:  sim_barrier(); if (in) GA_Sync(); if (sub) GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Terminate(); MPI_Finalize(); }
