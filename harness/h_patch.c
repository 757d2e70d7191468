/* G11, G12: patch and element-list transfers against one reference array */
#include "hga.h"
#include <stddef.h>
static int K, nd, d[MD], var, t, g; static RA r; static char w[120];
/* the library rejects accumulates of C_LONGLONG ("type not supported") */
#define NOACC(o, m) (t == 2 && (o) % (m) == 2 ? (o) - 2 : (o))
#define F(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_fail("%s: %s", w, _b); } while (0)
/* local buffer with leading dimensions padded by pad; gaps hold a guard pattern */
typedef struct { char *b; int ld[MD]; long n; int e[MD]; } LB;
static long lo_off(LB *l, const int *q) { long o = 0; int i; for (i = 0; i < nd; i++) o = (i ? o * l->ld[i - 1] : 0) + q[i]; return o; }
static LB lb(const int *e, int pad) { LB l; int i; l.n = e[0]; for (i = 0; i < nd; i++) l.e[i] = e[i]; for (i = 1; i < nd; i++) { l.ld[i - 1] = e[i] + pad; l.n *= l.ld[i - 1]; } l.b = malloc(l.n * TS[t] + 8); memset(l.b, 0x5a, l.n * TS[t] + 8); return l; }
static void ext(const int *lo, const int *hi, int *e) { int i; for (i = 0; i < nd; i++) e[i] = hi[i] - lo[i] + 1; }
static int qn(const int *e, int *q) { int i; for (i = nd - 1; i >= 0; i--) { if (++q[i] < e[i]) return 1; q[i] = 0; } return 0; }
static void gaps(LB *l, const char *what) { char *m = calloc(l->n + 1, 1); int q[MD] = { 0 }; long k; do m[lo_off(l, q)] = 1; while (qn(l->e, q)); for (k = 0; k < l->n; k++) if (!m[k]) { int j; for (j = 0; j < TS[t]; j++) if (l->b[k * TS[t] + j] != 0x5a) F("%s wrote into the gap of the local buffer", what); } { int j; for (j = 0; j < 8; j++) if (l->b[l->n * TS[t] + j] != 0x5a) F("%s wrote behind the local buffer", what); } free(m); }
static union { int i; long l; long long q; float f; double d; SingleComplex c; DoubleComplex z; } al;
static void *alpha(int re, int im) { switch (t) { case 0: al.i = re; break; case 1: al.l = re; break; case 2: al.q = re; break; case 3: al.f = re; break; case 4: al.d = re; break; case 5: al.c.real = re; al.c.imag = im; break; case 6: al.z.real = re; al.z.imag = im; break; } return &al; }
/* reference accumulate of value v at s */
static void racc(const int *s, double x, double y, int re, int im) { if (!CPLX(t)) im = 0, y = 0; RE(r, s) += re * x - im * y; IM(r, s) += re * y + im * x; }
static double vx(int k, int salt) { return (k * 5 + salt * 11) % 9 + 1; } static double vy(int k, int salt) { return CPLX(t) ? (k + salt) % 3 : 0; }
static void fillb(LB *l, int salt) { int q[MD] = { 0 }, k = 0; do { pe(l->b, t, lo_off(l, q), vx(k, salt), vy(k, salt)); k++; } while (qn(l->e, q)); }
static void setup(void) { sprintf(w, "%s var %d type %s dims (%s)", DN[K], var, TN[t], sv(nd, d)); g = mk(K, TY[t], nd, d, var, "a"); r = ra(t, nd, d); iota(&r, 0); local_all(g, K, &r, 1, w); gsync(g); }
static int mem_(int q) { return in_group(K, P, q); }
static int initiator(int step) { int q = step % P; while (!mem_(q)) q = (q + 1) % P; return q; }
static void check(const char *what, int step, const int *lo, const int *hi) { char b[200]; sprintf(b, "%s: after %s of (%s)-(%s)", w, what, sv(nd, lo), sv(nd, hi)); gsync(g); if (my == initiator(step + 1)) cmp_all(g, &r, b); gsync(g); }
static void finish(void) { local_all(g, K, &r, 0, w); gsync(g); GA_Destroy(g); }
static void getcmp(const int *lo, const int *hi, LB *l, const char *what) { int q[MD] = { 0 }, s[MD], i; do { double x, y; for (i = 0; i < nd; i++) s[i] = lo[i] + q[i]; ge(l->b, t, lo_off(l, q), &x, &y); if (x != RE(r, s) || (CPLX(t) && y != IM(r, s))) F("%s of (%s)-(%s), local ld +: element (%s) is %g,%g instead of %g,%g", what, sv(nd, lo), sv(nd, hi), sv(nd, s), x, y, RE(r, s), IM(r, s)); } while (qn(l->e, q)); gaps(l, what); sim_count(0, l->n); }
static void c64(const int *a, int64_t *b) { int i; for (i = 0; i < MD; i++) b[i] = i < nd ? a[i] : 0; }
static void patches(void) { int lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], step = 0, stride = opt_("stride", 1); setup();
  do { step++; if (step % stride) continue; int st = step / stride, op = NOACC(st % 6, 3), pad = (st / 6) % 3, salt = st, who = initiator(st / 2 + st), b64 = (st / 3) & 1, q[MD] = { 0 }, s[MD], k = 0, i, all = op == 2 && (st / 6) % 2; int64_t L[MD], H_[MD], D[MD]; ext(lo, hi, e); LB l = lb(e, pad); c64(lo, L); c64(hi, H_); c64(l.ld, D);
    int *pl = nd > 1 ? l.ld : l.ld; ga_nbhdl_t hd; static const char *on[] = { "put", "get", "acc", "nbput", "nbget", "nbacc" };
    if (op == 0 || op == 3) { if (my == who) { fillb(&l, salt); if (op == 0) { if (b64) NGA_Put64(g, L, H_, l.b, D); else NGA_Put(g, lo, hi, l.b, pl); } else { if (b64) NGA_NbPut64(g, L, H_, l.b, D, &hd); else NGA_NbPut(g, lo, hi, l.b, pl, &hd); NGA_NbWait(&hd); } }
      do { for (i = 0; i < nd; i++) s[i] = lo[i] + q[i]; RE(r, s) = vx(k, salt); IM(r, s) = vy(k, salt); k++; } while (qn(e, q)); check(on[op], st, lo, hi); }
    else if (op == 1 || op == 4) { if (my == who || op == 4) { if (op == 1) { if (b64) NGA_Get64(g, L, H_, l.b, D); else NGA_Get(g, lo, hi, l.b, pl); } else { if (b64) NGA_NbGet64(g, L, H_, l.b, D, &hd); else NGA_NbGet(g, lo, hi, l.b, pl, &hd); NGA_NbWait(&hd); } getcmp(lo, hi, &l, on[op]); } gsync(g); }
    else { int a = 1 + st % 3, c = st % 2, p2; if (my == who || all) { fillb(&l, salt + (all ? my : who)); if (op == 2) { if (b64) NGA_Acc64(g, L, H_, l.b, D, alpha(a, c)); else NGA_Acc(g, lo, hi, l.b, pl, alpha(a, c)); } else { if (b64) NGA_NbAcc64(g, L, H_, l.b, D, alpha(a, c), &hd); else NGA_NbAcc(g, lo, hi, l.b, pl, alpha(a, c), &hd); NGA_NbWait(&hd); } gaps(&l, on[op]); }
      for (p2 = 0; p2 < P; p2++) if (all ? mem_(p2) : p2 == who) { k = 0; memset(q, 0, sizeof q); do { for (i = 0; i < nd; i++) s[i] = lo[i] + q[i]; racc(s, vx(k, salt + p2), vy(k, salt + p2), a, c); k++; } while (qn(e, q)); } check(on[op], st, lo, hi);
      if (st > 120) { long k2; for (k2 = 0; k2 < 2 * r.N; k2++) { if (fabs(r.v[k2]) > 1e6) F("values grow too large"); } } if (st % 40 == 0) { iota(&r, st); local_all(g, K, &r, 1, w); gsync(g); } }
    free(l.b); sim_count(1, 1); } while (nxpatch(nd, d, lo, hi)); finish(); }
/* several outstanding non-blocking transfers by every process, one patch per process-owned row, waits in reverse order */
static void nbmany(void) { int i, j, k, s[MD], rows = d[0], lo[MD], hi[MD], e[MD]; setup(); ga_nbhdl_t hd[32]; LB l[32], m[32]; int c = 0; for (i = 0; i < nd; i++) { lo[i] = 0; hi[i] = d[i] - 1; }
  for (i = 0; i < rows; i++) if (initiator(i) == my) { lo[0] = hi[0] = i; ext(lo, hi, e); l[c] = lb(e, c % 2); fillb(&l[c], i); if (NOACC(i % 3, 3) == 2) NGA_NbAcc(g, lo, hi, l[c].b, l[c].ld, alpha(3, 1), &hd[c]); else NGA_NbPut(g, lo, hi, l[c].b, l[c].ld, &hd[c]); c++; }
  for (i = c - 1; i >= 0; i--) { if (i & 1) while (!NGA_NbTest(&hd[i])) sim_yield(); NGA_NbWait(&hd[i]); }
  for (i = 0; i < rows; i++) { memset(s, 0, sizeof s); s[0] = i; k = 0; do { if (NOACC(i % 3, 3) == 2) racc(s, vx(k, i), vy(k, i), 3, 1); else { RE(r, s) = vx(k, i); IM(r, s) = vy(k, i); } k++; for (j = nd - 1; j > 0; j--) { if (++s[j] < d[j]) break; s[j] = 0; } if (j == 0) break; } while (1); }
  gsync(g); c = 0; for (i = 0; i < rows; i++) if (initiator(i + 1) == my) { lo[0] = hi[0] = i; ext(lo, hi, e); m[c] = lb(e, 1); NGA_NbGet(g, lo, hi, m[c].b, m[c].ld, &hd[c]); c++; }
  for (i = c - 1; i >= 0; i--) NGA_NbWait(&hd[i]); c = 0; for (i = 0; i < rows; i++) if (initiator(i + 1) == my) { lo[0] = hi[0] = i; getcmp(lo, hi, &m[c], "outstanding nbget"); c++; }
  gsync(g); lo[0] = 0; hi[0] = d[0] - 1; check("outstanding nb", 0, lo, hi); finish(); }
static void oor(int op, int dim, int side) { setup(); int lo[MD], hi[MD], i, sk[MD], e[MD]; for (i = 0; i < nd; i++) { lo[i] = 0; hi[i] = d[i] - 1; sk[i] = 1; } if (side == 0) lo[dim] = -1; if (side == 1) hi[dim] = d[dim]; if (side == 2) lo[dim] = hi[dim] = d[dim]; if (side == 3) { lo[dim] = d[dim] - 1; hi[dim] = d[dim] - 2; } ext(lo, hi, e); for (i = 0; i < nd; i++) if (e[i] < 1) e[i] = 1; LB l = lb(e, 4); fillb(&l, 1); ga_nbhdl_t hd; int sub[MD], *sp = sub;
  if (my == initiator(dim + side)) { sim_expect_abort(); for (i = 0; i < nd; i++) sub[i] = lo[i] < 0 ? lo[i] : hi[i];
    switch (op) { case 0: NGA_Put(g, lo, hi, l.b, l.ld); break; case 1: NGA_Get(g, lo, hi, l.b, l.ld); break; case 2: NGA_Acc(g, lo, hi, l.b, l.ld, alpha(1, 0)); break; case 3: NGA_NbPut(g, lo, hi, l.b, l.ld, &hd); NGA_NbWait(&hd); break; case 4: NGA_NbGet(g, lo, hi, l.b, l.ld, &hd); NGA_NbWait(&hd); break; case 5: NGA_NbAcc(g, lo, hi, l.b, l.ld, alpha(1, 0), &hd); NGA_NbWait(&hd); break;
      case 6: if (side == 3) GA_Error("skip", 0); NGA_Scatter(g, l.b, &sp, 1); break; case 7: if (side == 3) GA_Error("skip", 0); NGA_Gather(g, l.b, &sp, 1); break; case 8: if (side == 3) GA_Error("skip", 0); NGA_Scatter_acc(g, l.b, &sp, 1, alpha(1, 0)); break; case 9: { char *p; NGA_Access(g, lo, hi, &p, e); } }
    { char b[90]; sprintf(b, "out-of-range patch accepted: %s op %d dim %d side %d", DN[K], op, dim, side); sim_never(b); }; } gsync(g); }
/* registered types and field transfers: struct { int a; double b; short c } */
struct fs { int a; int pad; double b; short c[4]; };
static void field(void) { int ty = NGA_Register_type(sizeof(struct fs)), i, lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], step = 0; sprintf(w, "%s fields dims (%s)", DN[K], sv(nd, d)); g = mk(K, ty, nd, d, var, "f"); long N = 1, k; for (i = 0; i < nd; i++) N *= d[i]; struct fs *ref = calloc(N, sizeof *ref), *buf = malloc((N + 1) * sizeof *buf);
  int zl[MD], zh[MD], ld[MD]; for (i = 0; i < nd; i++) { zl[i] = 0; zh[i] = d[i] - 1; if (i) ld[i - 1] = d[i]; } for (k = 0; k < N; k++) { ref[k].a = k; ref[k].b = k * 2 + 0.5; for (i = 0; i < 4; i++) ref[k].c[i] = k + i; } memcpy(buf, ref, N * sizeof *buf); if (my == initiator(0)) NGA_Put(g, zl, zh, buf, ld); gsync(g);
  static const struct { int off, sz; } FL[4] = { { offsetof(struct fs, a), 4 }, { offsetof(struct fs, b), 8 }, { offsetof(struct fs, c) + 2, 4 }, { 0, sizeof(struct fs) } };
  do { step++; int f = step % 4, who = initiator(step), pad = (step / 4) % 2, q[MD] = { 0 }, s[MD], nbk = (step / 8) & 1; ext(lo, hi, e); long o, n2 = e[0]; int fl[MD]; for (i = 1; i < nd; i++) { fl[i - 1] = e[i] + pad; n2 *= fl[i - 1]; } char *b = malloc(n2 * FL[f].sz + 8); memset(b, 0x5a, n2 * FL[f].sz + 8); ga_nbhdl_t hd;
    if (my == who) { if (nbk) { NGA_Nbget_field(g, lo, hi, FL[f].off, FL[f].sz, b, fl, &hd); NGA_NbWait(&hd); } else NGA_Get_field(g, lo, hi, FL[f].off, FL[f].sz, b, fl);
      do { o = 0; for (i = 0; i < nd; i++) { s[i] = lo[i] + q[i]; o = (i ? o * fl[i - 1] : 0) + q[i]; } if (memcmp(b + o * FL[f].sz, (char *)&ref[ix(nd, d, s)] + FL[f].off, FL[f].sz)) F("get_field (%s)-(%s) field %d: element (%s) wrong", sv(nd, lo), sv(nd, hi), f, sv(nd, s)); } while (qn(e, q)); for (i = 0; i < 8; i++) if (b[n2 * FL[f].sz + i] != 0x5a) F("get_field wrote behind the buffer"); }
    memset(b, 0, n2 * FL[f].sz); memset(q, 0, sizeof q); do { o = 0; for (i = 0; i < nd; i++) { s[i] = lo[i] + q[i]; o = (i ? o * fl[i - 1] : 0) + q[i]; } for (i = 0; i < FL[f].sz; i++) ((char *)&ref[ix(nd, d, s)])[FL[f].off + i] = b[o * FL[f].sz + i] = step + i * 3 + ix(nd, d, s); } while (qn(e, q));
    gsync(g); if (my == who) { if (nbk) { NGA_Nbput_field(g, lo, hi, FL[f].off, FL[f].sz, b, fl, &hd); NGA_NbWait(&hd); } else NGA_Put_field(g, lo, hi, FL[f].off, FL[f].sz, b, fl); } gsync(g);
    if (my == initiator(step + 1)) { memset(buf, 0, N * sizeof *buf); NGA_Get(g, zl, zh, buf, ld); for (k = 0; k < N; k++) if (memcmp(&buf[k], &ref[k], sizeof *buf)) F("after put_field (%s)-(%s) field %d: element %ld wrong", sv(nd, lo), sv(nd, hi), f, k); sim_count(0, N); } gsync(g); free(b); sim_count(1, 1); } while (nxpatch(nd, d, lo, hi));
  GA_Destroy(g); if (NGA_Deregister_type(ty)) {} free(ref); free(buf); }
static void rdonly(void) { int round; setup(); for (round = 0; round < 4; round++) { int lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], st = 0, z[MD] = { 0 }, pass; static char P1[] = "read_only", P2[] = "read_cache"; NGA_Set_property(g, round % 2 ? P2 : P1);
    for (pass = 0; pass < 2; pass++) { memset(lo, 0, sizeof lo); memset(hi, 0, sizeof hi); do { ext(lo, hi, e); LB l = lb(e, st++ % 2); NGA_Get(g, lo, hi, l.b, l.ld); getcmp(lo, hi, &l, round % 2 ? "get from read-cache array" : "get from read-only array"); free(l.b); } while (nxpatch(nd, d, lo, hi)); }
    GA_Sync(); NGA_Unset_property(g); check("unset_property", round, z, z); iota(&r, round + 1); if (round % 2) { local_all(g, K, &r, 1, w); gsync(g); } else { if (my == initiator(round)) put_all(g, &r); gsync(g); } } finish(); }
/* element lists */
static long rng; static int rnd(int m) { rng = rng * 6364136223846793005L + 1442695040888963407L; return (int)((unsigned long)rng >> 33) % m; }
static void elems(void) { int nn, st, i, k; setup(); for (st = 0; st < opt_("lists", 36); st++) { int op = NOACC(st % 3, 3), form = (st / 3) % 4, who = initiator(st), all = op == 2 && st % 2, pat = (st / 12) % 3; nn = pat == 0 ? (int)r.N : pat == 1 ? 1 + st % 3 : (int)r.N * 2 + 1; if (op == 0 && nn > r.N) nn = r.N; rng = st + 17;
    int *S = malloc(nn * nd * sizeof(int)), **SP = malloc(nn * sizeof *SP); int64_t *S6 = malloc(nn * nd * 8), **SP6 = malloc(nn * sizeof *SP6); int *perm = malloc(r.N * sizeof(int)); for (k = 0; k < r.N; k++) perm[k] = k; for (k = r.N - 1; k > 0; k--) { int j = rnd(k + 1), x = perm[k]; perm[k] = perm[j]; perm[j] = x; }
    for (k = 0; k < nn; k++) { int e = op == 0 ? perm[k] : pat == 1 ? perm[0] : rnd(r.N); if (op == 1 && pat == 0) e = perm[k]; SP[k] = S + k * nd; SP6[k] = S6 + k * nd; for (i = nd - 1; i >= 0; i--) { SP[k][i] = e % d[i]; SP6[k][i] = e % d[i]; e /= d[i]; } }
    char *v = malloc((nn + 1) * TS[t]); memset(v, 0x5a, (nn + 1) * TS[t]); static const char *on[] = { "scatter", "gather", "scatter_acc" }; char b[200]; sprintf(b, "%s: %s of %d elements form %d", w, on[op], nn, form); int a = 1 + st % 3, c = st % 2; int buf = st % 5 == 4;
    if (buf) NGA_Alloc_gatscat_buf(nn);
    if (my == who || all) { for (k = 0; k < nn && op != 1; k++) pe(v, t, k, vx(k, st), vy(k, st)); switch (op * 4 + form) {
        case 0: NGA_Scatter(g, v, SP, nn); break; case 1: NGA_Scatter_flat(g, v, S, nn); break; case 2: NGA_Scatter64(g, v, SP6, nn); break; case 3: NGA_Scatter_flat64(g, v, S6, nn); break;
        case 4: NGA_Gather(g, v, SP, nn); break; case 5: NGA_Gather_flat(g, v, S, nn); break; case 6: NGA_Gather64(g, v, SP6, nn); break; case 7: NGA_Gather_flat64(g, v, S6, nn); break;
        case 8: NGA_Scatter_acc(g, v, SP, nn, alpha(a, c)); break; case 9: NGA_Scatter_acc_flat(g, v, S, nn, alpha(a, c)); break; case 10: NGA_Scatter_acc64(g, v, SP6, nn, alpha(a, c)); break; case 11: NGA_Scatter_acc_flat64(g, v, S6, nn, alpha(a, c)); break; }
      if (op == 1) for (k = 0; k < nn; k++) { double x, y; ge(v, t, k, &x, &y); if (x != RE(r, SP[k]) || (CPLX(t) && y != IM(r, SP[k]))) sim_fail("%s: element %d (%s) is %g,%g instead of %g,%g", b, k, sv(nd, SP[k]), x, y, RE(r, SP[k]), IM(r, SP[k])); }
      for (i = 0; i < TS[t]; i++) if (v[nn * TS[t] + i] != 0x5a) sim_fail("%s: wrote behind the value list", b); if (op != 1) for (k = 0; k < nn; k++) { double x, y; ge(v, t, k, &x, &y); if (x != vx(k, st) || y != vy(k, st)) sim_fail("%s: the caller's values changed", b); } for (k = 0; k < nn; k++) for (i = 0; i < nd; i++) if (S[k * nd + i] != S6[k * nd + i]) sim_fail("%s: the caller's subscripts changed", b); }
    if (op == 0) for (k = 0; k < nn; k++) { RE(r, SP[k]) = vx(k, st); IM(r, SP[k]) = vy(k, st); }
    if (op == 2) { int p2; for (p2 = 0; p2 < P; p2++) if (all ? mem_(p2) : p2 == who) for (k = 0; k < nn; k++) racc(SP[k], vx(k, st), vy(k, st), a, c); }
    gsync(g); if (buf) NGA_Free_gatscat_buf(); if (my == initiator(st + 1)) cmp_all(g, &r, b); gsync(g); free(S); free(SP); free(S6); free(SP6); free(perm); free(v); sim_count(1, 1); } finish(); }
static void strided(void) { int lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], sk[MD], mxs = opt_("skip", 3), step = 0, i, stride = opt_("stride", 1); setup();
  do { step++; if (step % stride) continue; int st = step / stride, op = NOACC(st % 3, 3), pad = (st / 3) % 3, who = initiator(st + st / 3), q[MD] = { 0 }, s[MD], k = 0, b64 = (st / 2) & 1; int x = st / 3; for (i = 0; i < nd; i++) { sk[i] = 1 + x % mxs; x /= mxs; e[i] = (hi[i] - lo[i]) / sk[i] + 1; } LB l = lb(e, pad); int64_t L[MD], H_[MD], D[MD], SK[MD]; c64(lo, L); c64(hi, H_); c64(l.ld, D); c64(sk, SK); int a = 1 + st % 3, c = st % 2; char b[200]; static const char *on[] = { "strided put", "strided get", "strided acc" }; sprintf(b, "%s skip (%s)", on[op], sv(nd, sk));
#define SS for (i = 0; i < nd; i++) s[i] = lo[i] + q[i] * sk[i]
    if (my == who) { if (op != 1) fillb(&l, st); if (op == 0) { if (b64) NGA_Strided_put64(g, L, H_, SK, l.b, D); else NGA_Strided_put(g, lo, hi, sk, l.b, l.ld); } else if (op == 1) { if (b64) NGA_Strided_get64(g, L, H_, SK, l.b, D); else NGA_Strided_get(g, lo, hi, sk, l.b, l.ld); } else { if (b64) NGA_Strided_acc64(g, L, H_, SK, l.b, D, alpha(a, c)); else NGA_Strided_acc(g, lo, hi, sk, l.b, l.ld, alpha(a, c)); }
      if (op == 1) do { double X, Y; SS; ge(l.b, t, lo_off(&l, q), &X, &Y); if (X != RE(r, s) || (CPLX(t) && Y != IM(r, s))) F("%s of (%s)-(%s): element (%s) is %g,%g instead of %g,%g", b, sv(nd, lo), sv(nd, hi), sv(nd, s), X, Y, RE(r, s), IM(r, s)); } while (qn(e, q)); gaps(&l, b); }
    memset(q, 0, sizeof q); if (op != 1) { do { SS; if (op == 0) { RE(r, s) = vx(k, st); IM(r, s) = vy(k, st); } else racc(s, vx(k, st), vy(k, st), a, c); k++; } while (qn(e, q)); check(b, st, lo, hi); } else gsync(g); free(l.b); sim_count(1, 1); if (st % 40 == 0) { iota(&r, st); local_all(g, K, &r, 1, w); gsync(g); } } while (nxpatch(nd, d, lo, hi)); finish(); }
static void periodic(void) { int lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], pl[MD], ph[MD], step = 0, i, stride = opt_("stride", 1); setup();
  do { int sh; for (sh = 0; sh < 3; sh++) { step++; if (step % stride) continue; int st = step / stride, op = NOACC(st % 3, 3), pad = (st / 3) % 2, who = initiator(st + st / 3), q[MD] = { 0 }, s[MD], k = 0, b64 = (st / 2) & 1, x = st; for (i = 0; i < nd; i++) { int v = (int[]) { 0, 1, -1, d[i] / 2, -(d[i] / 2), d[i], -d[i], d[i] - 1, 2 * d[i], -2 * d[i], 1 - 3 * d[i], 2 * d[i] + 1 }[(x + sh * 4) % 12]; x = x / 3 + sh; pl[i] = lo[i] + v; ph[i] = hi[i] + v; if (op && st % 4 == 1 && (i == st / 4 % nd || st % 16 == 5)) { /* over both ends */ int A = 1 + st % d[i], B = 1 + (st / 3) % d[i]; if (A + B > d[i]) B = d[i] - A; pl[i] = -A; ph[i] = d[i] - 1 + B; } e[i] = ph[i] - pl[i] + 1; } LB l = lb(e, pad); int64_t L[MD], H_[MD], D[MD]; c64(pl, L); c64(ph, H_); c64(l.ld, D); int a = 1 + st % 3, c = st % 2; static const char *on[] = { "periodic put", "periodic get", "periodic acc" };
#define PS for (i = 0; i < nd; i++) s[i] = ((pl[i] + q[i]) % d[i] + d[i]) % d[i]
    if (my == who) { if (op != 1) fillb(&l, st); if (op == 0) { if (b64) NGA_Periodic_put64(g, L, H_, l.b, D); else NGA_Periodic_put(g, pl, ph, l.b, l.ld); } else if (op == 1) { if (b64) NGA_Periodic_get64(g, L, H_, l.b, D); else NGA_Periodic_get(g, pl, ph, l.b, l.ld); } else { if (b64) NGA_Periodic_acc64(g, L, H_, l.b, D, alpha(a, c)); else NGA_Periodic_acc(g, pl, ph, l.b, l.ld, alpha(a, c)); }
      if (op == 1) do { double X, Y; PS; ge(l.b, t, lo_off(&l, q), &X, &Y); if (X != RE(r, s) || (CPLX(t) && Y != IM(r, s))) F("%s of (%s)-(%s): element (%s) is %g,%g instead of %g,%g", on[op], sv(nd, pl), sv(nd, ph), sv(nd, s), X, Y, RE(r, s), IM(r, s)); } while (qn(e, q)); gaps(&l, on[op]); }
    memset(q, 0, sizeof q); if (op != 1) { do { PS; if (op == 0) { RE(r, s) = vx(k, st); IM(r, s) = vy(k, st); } else racc(s, vx(k, st), vy(k, st), a, c); k++; } while (qn(e, q)); check(on[op], st, pl, ph); } else gsync(g); free(l.b); sim_count(1, 1); if (st % 40 == 0) { iota(&r, st); local_all(g, K, &r, 1, w); gsync(g); } } } while (nxpatch(nd, d, lo, hi)); finish(); }
void scen_main(int rank, int np_) { const char *sc = sim_scenario(); gboot(); int mx = opt_("max", 5), nv = 2, i, tp = opt_("types", 0); nd = opt_("nd", 2); long nds = 1; for (i = 0; i < nd; i++) nds *= opt_("fix", 0) ? 1 : mx; int sub = opt_("sub", 0), isoor = !strcmp(sc, "oor"); if (sub) { int l[16], c = 0; for (i = n - 1; i >= 0; i--) if (i != 1) l[c++] = i; if (me != 1) { int h = GA_Pgroup_create(l, c); GA_Pgroup_set_default(h); } else in = 0; }
  part_begin(); sim_set_cases(isoor ? 10 * 4 * nd * ND : nds * ND * nv * (tp ? 7 : 1)); long c0 = sim_begin(), c = c0; if (isoor) { int op = c % 10; c /= 10; int side = c % 4; c /= 4; int dim = c % nd; K = c / nd; for (i = 0; i < nd; i++) d[i] = 4 + i; t = 4; if (!(sub && (BLOCKY(K) || K == D_GROUP)) && in && kind_ok(K, nd, d, 0) && in_group(K, P, my) && !(op == 9 && BLOCKY(K))) oor(op, dim, side); sim_barrier(); }
  else { K = c % ND; c /= ND; var = c % nv; c /= nv; t = tp ? c % 7 : (c0 / 3) % 7; if (tp) c /= 7; for (i = 0; i < nd; i++) { if (opt_("fix", 0)) d[i] = mx + (i & 1); else { d[i] = 1 + c % mx; c /= mx; } if (opt_("big", 0)) d[i] = 1 + (d[i] - 1) * opt_("big", 0); }
    int rd = !strcmp(sc, "rdonly");
    if (in && !(sub && (BLOCKY(K) || K == D_GROUP)) && !(rd && (BLOCKY(K) || K >= D_RESTR || K == D_GHOST || sub)) && kind_ok(K, nd, d, var) && in_group(K, P, my)) { if (!strcmp(sc, "patch")) patches(); if (!strcmp(sc, "nb")) nbmany(); if (!strcmp(sc, "field")) field(); if (rd) rdonly(); if (!strcmp(sc, "elems")) elems(); if (!strcmp(sc, "strided")) strided(); if (!strcmp(sc, "periodic")) periodic(); } }
  sim_barrier(); if (in) GA_Sync(); if (sub) GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Terminate(); MPI_Finalize(); }
