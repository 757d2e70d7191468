/* G14: whole-array and patch collectives against element-wise evaluation on a reference array */
#include "hga.h"
static int KA, KB, KC, nd, d[MD], var, t; static char w[200], wx[400];
#define W(...) (snprintf(wx + sprintf(wx, "%s: ", w), 180, __VA_ARGS__), getenv("HXV") ? fprintf(stderr, "%d %s\n", me, wx) : 0, wx)
#define F(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_fail("%s: %s", w, _b); } while (0)
typedef struct { double r, i; } Z;
static Z zmul(Z a, Z b) { Z c = { a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r }; return c; }
static Z zdiv(Z a, Z b) { double m = b.r * b.r + b.i * b.i; Z c = { (a.r * b.r + a.i * b.i) / m, (a.i * b.r - a.r * b.i) / m }; return c; }
static Z G(RA *a, const int *s) { Z z = { RE(*a, s), IM(*a, s) }; return z; }
static void S(RA *a, const int *s, Z z) { RE(*a, s) = z.r; IM(*a, s) = CPLX(a->t) ? z.i : 0; }
static double ab(Z z) { return sqrt(z.r * z.r + z.i * z.i); }
static int ISI(int t) { return t < 3; }
/* signed, never zero; in complex data the modulus of no two elements is equal unless the elements are */
static void data(RA *r, int salt) { long k; for (k = 0; k < r->N; k++) { int v = (k * 7 + salt * 13) % 89 - 44; if (!v) v = 45; r->v[2 * k] = v; r->v[2 * k + 1] = CPLX(r->t) ? (k * 3 + salt) % 5 - 2 : 0; } }
static void cpy(RA *a, RA *b) { memcpy(a->v, b->v, 2 * a->N * sizeof(double)); }
static Z cst(int t, int re, int im) { Z z = { re, CPLX(t) ? im : 0 }; return z; }
static char sb[6][16]; static void *sc(int t, Z z, int k) { pe(sb[k], t, 0, z.r, z.i); return sb[k]; }
static void setg(int g, int k, RA *r) { local_all(g, k, r, 1, "set"); }
static void chk(int g, int k, RA *r, const char *what, double tol) { LTOL = tol; local_all(g, k, r, 0, what); LTOL = 0; }
static int step_; static int pick(int m) { return (step_++ % m) == 0; }
#define TOLT (t == 3 || t == 5 ? 1e-5 : 1e-12)
enum { U_ZERO, U_FILL, U_SCALE, U_ADDC, U_ABS, U_RECIP, NU }; static const char *UN[NU] = { "zero", "fill", "scale", "add_constant", "abs_value", "recip" };
static int usup(int op, int t) { return t != 2 || op < U_ADDC; }
static Z ueval(int op, Z x, Z c) { Z o = { 0, 0 }, one = { 1, 0 }; switch (op) { case U_ZERO: return o; case U_FILL: return c; case U_SCALE: return zmul(x, c); case U_ADDC: o.r = x.r + c.r; o.i = x.i + c.i; return o; case U_ABS: o.r = ab(x); return o; default: if (ISI(t)) { o.r = (long)(1 / x.r); return o; } return zdiv(one, x); } }
static void unary(void) { sprintf(w, "%s var %d type %s dims (%s)%s", DN[KA], var, TN[t], sv(nd, d), grp0 ? " group" : ""); int g = mk(KA, TY[t], nd, d, var, "a"), op, lo[MD], hi[MD], i, salt = 1, s[MD]; RA r = ra(t, nd, d); int z[MD] = { 0 }, zh[MD]; for (i = 0; i < nd; i++) zh[i] = d[i] - 1;
  for (op = 0; op < NU; op++) { if (!usup(op, t)) continue; if (KA == D_GROUP && op > U_SCALE) continue; int pat = KA != D_GROUP; Z c = cst(t, -3, 2); void *C = sc(t, c, 0); double tol = op == U_RECIP || (op == U_ABS && CPLX(t)) ? TOLT : 0;
    data(&r, salt++); setg(g, KA, &r); memset(s, 0, sizeof s); do S(&r, s, ueval(op, G(&r, s), c)); while (nx(nd, z, zh, s));
    switch (op) { case U_ZERO: GA_Zero(g); break; case U_FILL: GA_Fill(g, C); break; case U_SCALE: GA_Scale(g, C); break; case U_ADDC: GA_Add_constant(g, C); break; case U_ABS: GA_Abs_value(g); break; default: GA_Recip(g); } chk(g, KA, &r, W("GA_%s", UN[op]), tol);
    memset(lo, 0, sizeof lo); memset(hi, 0, sizeof hi); int st = opt_("ust", 1); do { if (!pat || !pick(st)) continue; data(&r, salt++); setg(g, KA, &r); memcpy(s, lo, sizeof s); do S(&r, s, ueval(op, G(&r, s), c)); while (nx(nd, lo, hi, s));
      int64_t l6[MD], h6[MD]; int v64 = step_ & 1; for (i = 0; i < nd; i++) { l6[i] = lo[i]; h6[i] = hi[i]; }
#define UP(f) do { if (v64) f##64(g, l6, h6); else f(g, lo, hi); } while (0)
#define UPC(f) do { if (v64) f##64(g, l6, h6, C); else f(g, lo, hi, C); } while (0)
      switch (op) { case U_ZERO: UP(NGA_Zero_patch); break; case U_FILL: UPC(NGA_Fill_patch); break; case U_SCALE: UPC(NGA_Scale_patch); break; case U_ADDC: UPC(GA_Add_constant_patch); break; case U_ABS: UP(GA_Abs_value_patch); break; default: UP(GA_Recip_patch); }
      chk(g, KA, &r, W("%s_patch%s (%s)-(%s)", UN[op], v64 ? "64" : "", sv(nd, lo), sv(nd, hi)), tol); } while (nxpatch(nd, d, lo, hi)); }
  GA_Destroy(g); free(r.v); }
enum { B_ADD, B_MUL, B_DIV, B_MAX, B_MIN, NB }; static const char *BN[NB] = { "add", "elem_multiply", "elem_divide", "elem_maximum", "elem_minimum" };
static Z beval(int op, Z x, Z y, Z al, Z be) { Z o = { 0, 0 }, p, q; switch (op) { case B_ADD: p = zmul(x, al); q = zmul(y, be); o.r = p.r + q.r; o.i = p.i + q.i; return o; case B_MUL: return zmul(x, y); case B_DIV: if (ISI(t)) { o.r = (long)x.r / (long)y.r; return o; } return zdiv(x, y); case B_MAX: return CPLX(t) ? (ab(x) > ab(y) ? x : y) : x.r > y.r ? x : y; default: return CPLX(t) ? (ab(x) < ab(y) ? x : y) : x.r < y.r ? x : y; } }
static Z bdot(RA *a, const int *alo, const int *ahi, RA *b, const int *blo, const int *bhi) { Z o = { 0, 0 }; int s[MD], q[MD]; memcpy(s, alo, sizeof s); memcpy(q, blo, sizeof q); do { Z p = zmul(G(a, s), G(b, q)); o.r += p.r; o.i += p.i; nx(b->nd, blo, bhi, q); } while (nx(a->nd, alo, ahi, s)); return o; }
static Z callpdot(int ga, int *alo, int *ahi, int gb, int *blo, int *bhi, int v64) { Z o = { 0, 0 }; int i; int64_t a6[MD], A6[MD], b6[MD], B6[MD]; for (i = 0; i < MD; i++) { a6[i] = alo[i]; A6[i] = ahi[i]; b6[i] = blo[i]; B6[i] = bhi[i]; }
#define PD(X) (v64 ? NGA_##X##_patch64(ga, 'n', a6, A6, gb, 'n', b6, B6) : NGA_##X##_patch(ga, 'N', alo, ahi, gb, 'N', blo, bhi))
  switch (t) { case 0: o.r = PD(Idot); break; case 1: o.r = PD(Ldot); break; case 2: o.r = PD(Lldot); break; case 3: o.r = PD(Fdot); break; case 4: o.r = PD(Ddot); break; case 5: { SingleComplex c = PD(Cdot); o.r = c.real; o.i = c.imag; break; } default: { DoubleComplex c = PD(Zdot); o.r = c.real; o.i = c.imag; } } return o; }
static Z calldot(int ga, int gb) { Z o = { 0, 0 }; switch (t) { case 0: o.r = GA_Idot(ga, gb); break; case 1: o.r = GA_Ldot(ga, gb); break; case 2: o.r = GA_Lldot(ga, gb); break; case 3: o.r = GA_Fdot(ga, gb); break; case 4: o.r = GA_Ddot(ga, gb); break; case 5: { SingleComplex c = GA_Cdot(ga, gb); o.r = c.real; o.i = c.imag; break; } default: { DoubleComplex c = GA_Zdot(ga, gb); o.r = c.real; o.i = c.imag; } } return o; }
static void bcall(int op, int ga, int gb, int gc, void *al, void *be) { switch (op) { case B_ADD: GA_Add(al, ga, be, gb, gc); break; case B_MUL: GA_Elem_multiply(ga, gb, gc); break; case B_DIV: GA_Elem_divide(ga, gb, gc); break; case B_MAX: GA_Elem_maximum(ga, gb, gc); break; default: GA_Elem_minimum(ga, gb, gc); } }
static void bpcall(int op, int ga, int *alo, int *ahi, int gb, int *blo, int *bhi, int gc, int *clo, int *chi, void *al, void *be, int v64) { int i; int64_t a6[MD], A6[MD], b6[MD], B6[MD], c6[MD], C6[MD]; for (i = 0; i < MD; i++) { a6[i] = alo[i]; A6[i] = ahi[i]; b6[i] = blo[i]; B6[i] = bhi[i]; c6[i] = clo[i]; C6[i] = chi[i]; }
#define BP(f) do { if (v64) f##64(ga, a6, A6, gb, b6, B6, gc, c6, C6); else f(ga, alo, ahi, gb, blo, bhi, gc, clo, chi); } while (0)
  switch (op) { case B_ADD: if (v64) NGA_Add_patch64(al, ga, a6, A6, be, gb, b6, B6, gc, c6, C6); else NGA_Add_patch(al, ga, alo, ahi, be, gb, blo, bhi, gc, clo, chi); break; case B_MUL: BP(GA_Elem_multiply_patch); break; case B_DIV: BP(GA_Elem_divide_patch); break; case B_MAX: BP(GA_Elem_maximum_patch); break; default: BP(GA_Elem_minimum_patch); } }
static int bsup(int op, int t) { return t != 2 || op == B_ADD; }
/* shifts the box so that it starts elsewhere but still fits */
static void shift(const int *lo, const int *hi, int k, int *l, int *h) { int i; for (i = 0; i < MD; i++) { l[i] = h[i] = 0; } for (i = 0; i < nd; i++) { int e = hi[i] - lo[i], room = d[i] - e; l[i] = (lo[i] + k * (1 + i)) % room; h[i] = l[i] + e; } }
static void binary(void) { sprintf(w, "%s,%s,%s var %d type %s dims (%s)%s", DN[KA], DN[KB], DN[KC], var, TN[t], sv(nd, d), grp0 ? " group" : ""); int ga = mk(KA, TY[t], nd, d, var, "a"), gb = mk(KB, TY[t], nd, d, var, "b"), gc = mk(KC, TY[t], nd, d, var, "c"), op, i, salt = 1, s[MD], z[MD] = { 0 }, zh[MD] = { 0 }, al; for (i = 0; i < nd; i++) zh[i] = d[i] - 1; RA a = ra(t, nd, d), b = ra(t, nd, d), c = ra(t, nd, d); int grp = KA == D_GROUP;
  Z va = cst(t, 2, -1), vb = cst(t, -3, 2); void *pa = sc(t, va, 1), *pb = sc(t, vb, 2);
  data(&a, 1); data(&b, 2); data(&c, 3); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c);
  GA_Copy(ga, gc); chk(gc, KC, &a, W("GA_Copy"), 0); chk(ga, KA, &a, W("GA_Copy source"), 0);
  { Z x = calldot(ga, gb), X = bdot(&a, z, zh, &b, z, zh); if (x.r != X.r || (CPLX(t) && x.i != X.i)) F("dot is %g,%g instead of %g,%g", x.r, x.i, X.r, X.i); x = calldot(ga, ga); X = bdot(&a, z, zh, &a, z, zh); if (x.r != X.r || (CPLX(t) && x.i != X.i)) F("dot with itself is %g,%g instead of %g,%g", x.r, x.i, X.r, X.i); }
  for (op = 0; op < (grp ? 0 : NB); op++) if (bsup(op, t)) for (al = 0; al < 5; al++) { /* aliasing: c distinct, c = a, c = b, a = b, all the same */ if (opt_("alq", 0) && (al + op + KA + KB * 2 + t + d[0]) % 5) continue; int GA_ = ga, GB_ = al == 3 || al == 4 ? ga : gb, GC_ = al == 1 || al == 4 ? ga : al == 2 ? gb : gc; RA *B_ = GB_ == ga ? &a : &b, *C_ = GC_ == ga ? &a : GC_ == gb ? &b : &c; int KC_ = GC_ == ga ? KA : GC_ == gb ? KB : KC; double tol = op == B_DIV && !ISI(t) ? TOLT : 0;
    data(&a, salt++); data(&b, salt++); data(&c, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c); memset(s, 0, sizeof s); do S(C_, s, beval(op, G(&a, s), G(B_, s), va, vb)); while (nx(nd, z, zh, s));
    bcall(op, GA_, GB_, GC_, pa, pb); chk(GC_, KC_, C_, W("%s (alias %d)", BN[op], al), tol); if (C_ != &a) chk(ga, KA, &a, W("%s (alias %d): first operand", BN[op], al), 0); if (C_ != &b) chk(gb, KB, &b, W("%s (alias %d): second operand", BN[op], al), 0); }
  int lo[MD] = { 0 }, hi[MD] = { 0 }, st = opt_("bst", 1), l1[MD], h1[MD], l2[MD], h2[MD], k = 0; do { if (grp || !pick(st)) continue; k++; shift(lo, hi, k % 3, l1, h1); shift(lo, hi, (k / 3) % 3, l2, h2); int v64 = k & 1;
    /* dot and copy between differently placed patches */
    data(&a, salt++); data(&b, salt++); data(&c, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c);
    { Z x = callpdot(ga, lo, hi, gb, l1, h1, v64), X = bdot(&a, lo, hi, &b, l1, h1); if (x.r != X.r || (CPLX(t) && x.i != X.i)) F("dot_patch (%s)-(%s) with (%s)-(%s) is %g,%g instead of %g,%g", sv(nd, lo), sv(nd, hi), sv(nd, l1), sv(nd, h1), x.r, x.i, X.r, X.i); }
    { int q[MD]; memcpy(s, lo, sizeof s); memcpy(q, l2, sizeof q); do { S(&c, q, G(&a, s)); nx(nd, l2, h2, q); } while (nx(nd, lo, hi, s)); if (v64) { int64_t a6[MD], A6[MD], c6[MD], C6[MD]; for (i = 0; i < nd; i++) { a6[i] = lo[i]; A6[i] = hi[i]; c6[i] = l2[i]; C6[i] = h2[i]; } NGA_Copy_patch64('n', ga, a6, A6, gc, c6, C6); } else NGA_Copy_patch('N', ga, lo, hi, gc, l2, h2); chk(gc, KC, &c, W("copy_patch (%s)-(%s) to (%s)-(%s)", sv(nd, lo), sv(nd, hi), sv(nd, l2), sv(nd, h2)), 0); chk(ga, KA, &a, W("copy_patch source"), 0); }
    for (op = 0; op < (grp ? 0 : NB); op++) { if (!bsup(op, t) || (opt_("bop", 1) && (k + op) % 3)) continue; al = (k / 3 + op) % 4; int GC_ = al == 1 ? ga : al == 2 ? gb : gc; RA *C_ = GC_ == ga ? &a : GC_ == gb ? &b : &c; int KC_ = GC_ == ga ? KA : GC_ == gb ? KB : KC, *lc = al == 1 ? lo : al == 2 ? l1 : l2, *hc = al == 1 ? hi : al == 2 ? h1 : h2; double tol = op == B_DIV && !ISI(t) ? TOLT : 0;
      data(&a, salt++); data(&b, salt++); data(&c, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c); int q[MD], u[MD]; RA C0 = ra(t, nd, d); cpy(&C0, C_); memcpy(s, lo, sizeof s); memcpy(q, l1, sizeof q); memcpy(u, lc, sizeof u); do { S(&C0, u, beval(op, G(&a, s), G(&b, q), va, vb)); nx(nd, l1, h1, q); nx(nd, lc, hc, u); } while (nx(nd, lo, hi, s)); cpy(C_, &C0); free(C0.v);
      bpcall(op, ga, lo, hi, gb, l1, h1, GC_, lc, hc, pa, pb, v64); const char *what = W("%s_patch (alias %d) (%s)-(%s), (%s)-(%s) into (%s)-(%s)", BN[op], al, sv(nd, lo), sv(nd, hi), sv(nd, l1), sv(nd, h1), sv(nd, lc), sv(nd, hc)); chk(GC_, KC_, C_, what, tol); if (C_ != &a) chk(ga, KA, &a, W("%s_patch: first operand", BN[op]), 0); if (C_ != &b) chk(gb, KB, &b, W("%s_patch: second operand", BN[op]), 0); }
  } while (nxpatch(nd, d, lo, hi));
  GA_Destroy(gc); GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); free(c.v); }
static void data2(RA *r, int salt) { long k; for (k = 0; k < r->N; k++) { r->v[2 * k] = 1 + (k * 7 + salt * 13) % 89; r->v[2 * k + 1] = CPLX(r->t) ? (k + salt) % 2 : 0; } }
static Z med(Z a, Z b, Z c) { double x = CPLX(t) ? ab(a) : a.r, y = CPLX(t) ? ab(b) : b.r, v = CPLX(t) ? ab(c) : c.r; return (x <= y && y <= v) || (v <= y && y <= x) ? b : (y <= x && x <= v) || (v <= x && x <= y) ? a : c; }
static void mat(void) { int kv = KB, dv, i, j, op, s[MD], q[MD], dm = d[0] < d[1] ? d[0] : d[1]; sprintf(w, "%s, vector %s var %d type %s dims (%s)%s", DN[KA], DN[KB], var, TN[t], sv(2, d), grp0 ? " group" : "");
  static const char *MN[] = { "shift_diagonal", "set_diagonal", "zero_diagonal", "add_diagonal", "get_diag", "scale_rows", "scale_cols", "norm1", "norm_infinity" };
  int g = mk(KA, TY[t], 2, d, var, "m"), salt = 1; RA a = ra(t, 2, d); memset(s, 0, sizeof s); memset(q, 0, sizeof q);
  for (op = 0; op < 9; op++) { dv = op == 5 ? d[0] : op == 6 ? d[1] : dm; int usev = op == 1 || (op >= 3 && op <= 6), gv = 0; if (usev && !kind_ok(kv, 1, &dv, var)) continue; RA v = ra(t, 1, &dv); data(&a, salt++); data(&v, salt++); setg(g, KA, &a); if (usev) { gv = mk(kv, TY[t], 1, &dv, var, "v"); setg(gv, kv, &v); } Z c = cst(t, 5, -1); double nm = -1, X = 0; long k;
    switch (op) { case 0: GA_Shift_diagonal(g, sc(t, c, 0)); break; case 1: GA_Set_diagonal(g, gv); break; case 2: GA_Zero_diagonal(g); break; case 3: GA_Add_diagonal(g, gv); break; case 4: GA_Get_diag(g, gv); break; case 5: GA_Scale_rows(g, gv); break; case 6: GA_Scale_cols(g, gv); break; case 7: GA_Norm1(g, &nm); break; default: GA_Norm_infinity(g, &nm); }
    if (op == 7) { for (k = 0; k < a.N; k++) { Z z = { a.v[2 * k], a.v[2 * k + 1] }; X += ab(z); } } if (op == 8) { for (k = 0; k < a.N; k++) { Z z = { a.v[2 * k], a.v[2 * k + 1] }; if (ab(z) > X) X = ab(z); } }
    if (op >= 7 && !(fabs(nm - X) <= (CPLX(t) ? 1e-5 * X : 0))) F("%s is %.10g instead of %.10g", MN[op], nm, X);
    for (i = 0; i < d[0]; i++) for (j = 0; j < d[1]; j++) { s[0] = i; s[1] = j; q[0] = op == 6 ? j : i; Z x = G(&a, s), y; int dg = i == j; if (op == 4) { if (dg) S(&v, q, x); continue; } if (op < 5 && !dg) continue; if (!usev) { if (op == 0) { x.r += c.r; x.i += c.i; S(&a, s, x); } if (op == 2) { x.r = x.i = 0; S(&a, s, x); } continue; }
      y = G(&v, q); if (op == 1) x = y; else if (op == 3) { x.r += y.r; x.i += y.i; } else x = zmul(x, y); S(&a, s, x); }
    chk(g, KA, &a, W("%s", MN[op]), 0); if (usev) { chk(gv, kv, &v, W("%s: vector", MN[op]), 0); GA_Destroy(gv); } free(v.v); }
  GA_Destroy(g); free(a.v); }
static void median(void) { int KM = KC, i, lo[MD] = { 0 }, hi[MD] = { 0 }, l1[MD], h1[MD], l2[MD], h2[MD], l3[MD], h3[MD], z[MD] = { 0 }, zh[MD] = { 0 }, s[MD], q[MD], u[MD], m[MD], k = 0, salt = 1, st = opt_("bst", 1); KC = (KA + KB) % 2 ? KA : KB; if (KC == D_GROUP) KC = KM; for (i = 0; i < nd; i++) zh[i] = d[i] - 1; sprintf(w, "%s,%s,%s into %s var %d type %s dims (%s)%s", DN[KA], DN[KB], DN[KC], DN[KM], var, TN[t], sv(nd, d), grp0 ? " group" : "");
  int ga = mk(KA, TY[t], nd, d, var, "a"), gb = mk(KB, TY[t], nd, d, var, "b"), gc = mk(KC, TY[t], nd, d, var, "c"), gm = mk(KM, TY[t], nd, d, var, "m"); RA a = ra(t, nd, d), b = ra(t, nd, d), c = ra(t, nd, d), r = ra(t, nd, d);
  int whole = 1; do { if (!whole && !pick(st)) continue; if (whole) { memcpy(lo, z, sizeof lo); memcpy(hi, zh, sizeof hi); } k++; shift(lo, hi, k % 3, l1, h1); shift(lo, hi, k / 3 % 2, l2, h2); shift(lo, hi, k / 2 % 3, l3, h3); data2(&a, salt++); data2(&b, salt++); data2(&c, salt++); data2(&r, salt++); setg(ga, KA, &a); setg(gb, KB, &b); setg(gc, KC, &c); setg(gm, KM, &r);
    memcpy(s, lo, sizeof s); memcpy(q, l1, sizeof q); memcpy(u, l2, sizeof u); memcpy(m, l3, sizeof m); do { S(&r, m, med(G(&a, s), G(&b, q), G(&c, u))); nx(nd, l1, h1, q); nx(nd, l2, h2, u); nx(nd, l3, h3, m); } while (nx(nd, lo, hi, s));
    if (whole) GA_Median(ga, gb, gc, gm); else if (k & 1) GA_Median_patch(ga, lo, hi, gb, l1, h1, gc, l2, h2, gm, l3, h3); else { int64_t a6[8][MD]; int *ps[8] = { lo, hi, l1, h1, l2, h2, l3, h3 }, x; for (x = 0; x < 8; x++) for (i = 0; i < nd; i++) a6[x][i] = ps[x][i]; GA_Median_patch64(ga, a6[0], a6[1], gb, a6[2], a6[3], gc, a6[4], a6[5], gm, a6[6], a6[7]); }
    chk(gm, KM, &r, W("median (%s)-(%s)", sv(nd, lo), sv(nd, hi)), 0); chk(ga, KA, &a, W("median: first operand"), 0); chk(gb, KB, &b, W("median: second operand"), 0); chk(gc, KC, &c, W("median: third operand"), 0); if (whole) { whole = 0; memset(lo, 0, sizeof lo); memset(hi, 0, sizeof hi); k = 0; } } while (nxpatch(nd, d, lo, hi));
  GA_Destroy(gm); GA_Destroy(gc); GA_Destroy(gb); GA_Destroy(ga); free(a.v); free(b.v); free(c.v); free(r.v); }
void scen_main(int rank, int np_) { gboot(); int mx = opt_("max", 4), mn = opt_("min", 1), nv = 2, i; nd = opt_("nd", 2); long nds = 1; for (i = 0; i < nd; i++) nds *= mx; const char *sc_ = sim_opt("scen"); int sub = opt_("sub", 0); if (!sc_) sc_ = sim_scenario(); int un = !strcmp(sc_, "unary"), mt = !strcmp(sc_, "mat"), allt = opt_("allt", 0), thin = opt_("thin", 0); if (sub) { int l[16], c = 0; for (i = n - 1; i >= 0; i--) if (i != 1) l[c++] = i; grp0 = 1; if (me != 1) { int h = GA_Pgroup_create(l, c); GA_Pgroup_set_default(h); } else in = 0; }
  part_begin(); if (thin) nv = 1; long tot = nds * nv * (allt ? 7 : 1) * ND * (un ? 1 : mt || thin ? ND : ND * 2); sim_set_cases(tot); long c0 = sim_begin(), c = c0; KA = c % ND; c /= ND; KB = KC = KA; if (!un) { KB = c % ND; c /= ND; if (mt) KC = KA; else { int kc = thin ? (KA * 2 + KB) % 3 : c % 2; KC = kc ? KA : KB; if (kc == 0 && KA == KB) KC = (KA + 3) % ND; if (!thin) c /= 2; } } var = thin ? (KA + KB + c) & 1 : c % nv; c /= nv; if (allt) { t = c % 7; c /= 7; } else t = (KA * 3 + KB * 5 + KC + c + c / 3) % 7; for (i = 0; i < nd; i++) { d[i] = mn + c % mx; c /= mx; }
  int gk = (KA == D_GROUP) + (KB == D_GROUP) + (KC == D_GROUP); if (gk && (KA != D_GROUP || KB != D_GROUP)) in = 0; if (KA == D_GROUP && KB == D_GROUP) KC = KA; if (gk && sub) in = 0; if (in && KA == D_GROUP && !in_group(KA, P, my)) in = 0; if (sub && (BLOCKY(KA) || BLOCKY(KB) || BLOCKY(KC) )) in = 0;
  int all = 1; if (sub ? (me != 1) : 1) { if (!kind_ok(KA, nd, d, var) || !kind_ok(KB, nd, d, var) || !kind_ok(KC, nd, d, var)) all = 0; } if (in && all) { if (un) unary(); else if (!strcmp(sc_, "mat")) { if (KA != D_GROUP && KB != D_GROUP && t != 2) mat(); } else if (!strcmp(sc_, "median")) { if (KA != D_GROUP && KB != D_GROUP && KC != D_GROUP && t != 2) median(); } else binary(); } sim_barrier(); if (!(sub && me == 1)) GA_Sync(); if (sub) GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Terminate(); MPI_Finalize(); }
