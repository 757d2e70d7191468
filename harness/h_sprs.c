/* G21: sparse arrays against dense reference matrices */
#include "hga.h"
#define MX 8
typedef struct { int n, m; double v[MX * MX][2]; unsigned char p[MX * MX]; } SM; /* p: element present */
static char w[240], step_[160]; static int T, L64;
#define F(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); sim_fail("%s, %s: %s", w, step_, b_); } while (0)
static const struct { int n, m; } SH[] = { { 3, 3 }, { 4, 4 }, { 5, 4 }, { 4, 6 }, { 5, 5 }, { 7, 4 }, { 6, 8 }, { 2, 5 }, { 8, 8 }, { 1, 4 }, { 4, 1 }, { 2, 2 } };
#define NSH ((int)(sizeof SH / sizeof *SH))
static int present(int pat, int i, int j, int n, int m) { switch (pat) { case 0: return 1; case 1: return i % m == j || j % n == i; case 2: return (i + j) & 1 || i == 0; case 3: return i != n / 2 && j != m / 2 ? 1 : i == 0; case 4: return j == m - 1 || i == n - 1; case 5: return (i * 5 + j * 3) % 4 < 2; case 6: return j >= i; } return i < (n + 1) / 2 && j < (m + 1) / 2; }
static double val(int salt, int i, int j, int im) { return im ? (i + 2 * j + salt) % 4 - 1 : 1 + (3 * i + 5 * j + salt) % 7 - (i == j && salt & 1 ? 9 : 0); }
static SM fill(int n, int m, int pat, int salt) { SM a; int i, j; memset(&a, 0, sizeof a); a.n = n; a.m = m; for (i = 0; i < n; i++) for (j = 0; j < m; j++) if (present(pat, i, j, n, m)) { a.p[i * m + j] = 1; a.v[i * m + j][0] = val(salt, i, j, 0); a.v[i * m + j][1] = CPLX(T) ? val(salt, i, j, 1) : 0; } return a; }
static int nnz(SM *a) { int i, c = 0; for (i = 0; i < a->n * a->m; i++) c += a->p[i]; return c; }
static int build(SM *a, int how) { int s = L64 ? NGA_Sprs_array_create64(a->n, a->m, TY[T]) : NGA_Sprs_array_create(a->n, a->m, TY[T]), i, q, k = 0; char e[16]; int N = a->n * a->m;
  for (q = 0; q < N; q++) { i = how & 1 ? N - 1 - q : q; if (!a->p[i]) continue; int o = how / 2 % 3 == 0 ? k % P : how / 2 % 3 == 1 ? P - 1 : (k * 3 + i / a->m) % P; k++; if (o != my) continue; pe(e, T, 0, a->v[i][0], a->v[i][1]); if (L64) NGA_Sprs_array_add_element64(s, i / a->m, i % a->m, e); else NGA_Sprs_array_add_element(s, i / a->m, i % a->m, e); }
  if (!NGA_Sprs_array_assemble(s)) F("NGA_Sprs_array_assemble fails"); return s; }
static int rd(int s, int p, int *hi) { int lo = -7; *hi = -7; if (L64) { int64_t l = -7, h = -7; NGA_Sprs_array_row_distribution64(s, p, &l, &h); lo = l; *hi = h; } else NGA_Sprs_array_row_distribution(s, p, &lo, hi); return lo; }
static int cd(int s, int p, int *hi) { int lo = -7; *hi = -7; if (L64) { int64_t l = -7, h = -7; NGA_Sprs_array_column_distribution64(s, p, &l, &h); lo = l; *hi = h; } else NGA_Sprs_array_column_distribution(s, p, &lo, hi); return lo; }
static void blk(SM *a, const char *how, int R, int C, int rlo, int rhi, int clo, int chi, void *idx, void *jdx, void *v, int zero) { /* compare one block with the reference */
  int i, j, n = 0, want = 0; unsigned char seen[MX * MX] = { 0 }; for (i = rlo; i <= rhi; i++) for (j = clo; j <= chi; j++) want += a->p[i * a->m + j];
  if (!v) { if (want) F("%s: block (%d,%d) is empty, it has %d elements", how, R, C, want); return; }
  for (i = rlo; i <= rhi; i++) { long b = L64 ? ((int64_t *)idx)[i - rlo] : ((int *)idx)[i - rlo], e = L64 ? ((int64_t *)idx)[i - rlo + 1] : ((int *)idx)[i - rlo + 1], k; if (b != n || e < b || e - b > MX) F("%s: block (%d,%d): row %d starts at %ld, ends at %ld, instead of starting at %d", how, R, C, i, b, e, n);
    for (k = b; k < e; k++, n++) { double x, y; j = L64 ? ((int64_t *)jdx)[k] : ((int *)jdx)[k]; if (j < clo || j > chi) F("%s: block (%d,%d): column %d of row %d is outside columns %d-%d", how, R, C, j, i, clo, chi); if (seen[i * a->m + j]++) F("%s: block (%d,%d): element (%d,%d) is there twice", how, R, C, i, j); if (!a->p[i * a->m + j] && !zero) F("%s: block (%d,%d): element (%d,%d) was never inserted", how, R, C, i, j);
      ge(v, T, k, &x, &y); if (x != a->v[i * a->m + j][0] || (CPLX(T) && y != a->v[i * a->m + j][1])) F("%s: block (%d,%d): element (%d,%d) is %g,%g instead of %g,%g", how, R, C, i, j, x, y, a->v[i * a->m + j][0], a->v[i * a->m + j][1]); } }
  for (i = rlo; i <= rhi; i++) for (j = clo; j <= chi; j++) if (a->p[i * a->m + j] && !seen[i * a->m + j]) F("%s: block (%d,%d): element (%d,%d) is missing", how, R, C, i, j); sim_count(0, n); }
static void verify(int s, SM *a, int turn, int zero) { int p, q, i, lo, hi, e; sim_count(1, 1);
  for (p = e = 0; p < P; p++) { lo = rd(s, p, &hi); if (lo != e || hi < lo - 1) F("rows %d-%d of process %d do not continue after row %d", lo, hi, p, e - 1); e = hi + 1; } if (e != a->n) F("the row distribution ends at %d instead of %d", e, a->n); for (p = e = 0; p < P; p++) { lo = cd(s, p, &hi); if (lo != e || hi < lo - 1) F("columns %d-%d of block %d do not continue after column %d", lo, hi, p, e - 1); e = hi + 1; } if (e != a->m) F("the column distribution ends at %d instead of %d", e, a->m);
  int rlo, rhi = 0, *L, nb = -1, has[16] = { 0 }; rlo = rd(s, my, &rhi); NGA_Sprs_array_col_block_list(s, &L, &nb); for (i = 0; i < nb; i++) { if (L[i] < 0 || L[i] >= P || has[L[i]]++) F("column block list of process %d has entry %d", my, L[i]); } free(L);
  for (q = 0; q < P; q++) { int chi, clo = cd(s, q, &chi); void *x = (void *)1, *y = (void *)1, *v = (void *)1; if (L64) NGA_Sprs_array_access_col_block64(s, q, (int64_t **)&x, (int64_t **)&y, &v); else NGA_Sprs_array_access_col_block(s, q, (int **)&x, (int **)&y, &v); if (!!v != has[q]) F("column block %d %s in the list of process %d but %s", q, has[q] ? "is" : "is not", my, v ? "has data" : "has none"); if (!v && (x || y)) F("column block %d has index pointers but no data", q); blk(a, "access", my, q, rlo, rhi, clo, chi, x, y, v, zero); }
  if (turn % P == my || P < 3) for (p = 0; p < P; p++) for (q = 0; q < P; q++) { int l0, h0, l1, h1, a0 = -5, b0 = -5, a1 = -5, b1 = -5, r; void *x = (void *)1, *y = (void *)1, *v = (void *)1; l0 = rd(s, p, &h0); l1 = cd(s, q, &h1); if (L64) { int64_t c[4]; r = NGA_Sprs_array_get_block64(s, p, q, (int64_t **)&x, (int64_t **)&y, &v, c, c + 1, c + 2, c + 3); a0 = c[0]; b0 = c[1]; a1 = c[2]; b1 = c[3]; } else r = NGA_Sprs_array_get_block(s, p, q, (int **)&x, (int **)&y, &v, &a0, &b0, &a1, &b1);
      if (a0 != l0 || b0 != h0 || a1 != l1 || b1 != h1) F("get_block (%d,%d) reports rows %d-%d columns %d-%d instead of %d-%d, %d-%d", p, q, a0, b0, a1, b1, l0, h0, l1, h1); if (!r && (x || y || v)) F("get_block (%d,%d) returns false with pointers", p, q); if (r && !v) F("get_block (%d,%d) returns no data", p, q); blk(a, "get_block", p, q, l0, h0, l1, h1, x, y, v, zero); if (r) { free(x); free(y); free(v); } }
  GA_Sync(); }
static void vverify(int g, int n, double (*r)[2], int st, const char *what) { int lo = 0, hi = n - 1, ld = 1, i; char b[MX * 16]; double x, y; if (GA_Ndim(g) != 1) F("%s has %d dimensions", what, GA_Ndim(g)); NGA_Get(g, &lo, &hi, b, &ld); for (i = 0; i < n; i++) { ge(b, T, i, &x, &y); if (x != r[i * st][0] || (CPLX(T) && y != r[i * st][1])) F("%s: entry %d is %g,%g instead of %g,%g", what, i, x, y, r[i * st][0], r[i * st][1]); } sim_count(0, n); }
static int vec(int n, int salt, double (*r)[2], int irr) { int g = GA_Create_handle(), i, lo = 0, hi = n - 1, ld = 1; GA_Set_data(g, 1, &n, TY[T]); if (irr && n > 1) { int c = n; GA_Set_chunk(g, &c); } if (!GA_Allocate(g)) F("GA_Allocate fails"); char b[MX * 16]; for (i = 0; i < n; i++) { r[i][0] = (i * 3 + salt) % 5 - 1; r[i][1] = CPLX(T) ? (i + salt) % 3 : 0; pe(b, T, i, r[i][0], r[i][1]); } if (my == salt % P) NGA_Put(g, &lo, &hi, b, &ld); GA_Sync(); return g; }
static void mulc(const double *a, const double *b, double *c) { c[0] += a[0] * b[0] - a[1] * b[1]; c[1] += a[0] * b[1] + a[1] * b[0]; }
static int dense(int n, int m, int salt, int kind, SM *r) { int d[2] = { n, m }, lo[2] = { 0, 0 }, hi[2] = { n - 1, m - 1 }, ld = m, i, g; *r = fill(n, m, 5, salt); if (kind == 0) memset(r->p, 1, sizeof r->p); for (i = 0; i < n * m; i++) { if (!r->p[i]) r->v[i][0] = r->v[i][1] = 0; else if (kind == 0) { r->v[i][0] = val(salt, i / m, i % m, 0); r->v[i][1] = CPLX(T) ? val(salt, i / m, i % m, 1) : 0; } }
  g = mk(D_REG, TY[T], 2, d, 0, "dense"); char b[MX * MX * 16]; for (i = 0; i < n * m; i++) pe(b, T, i, r->v[i][0], r->v[i][1]); if (my == salt % P) NGA_Put(g, lo, hi, b, &ld); GA_Sync(); return g; }
static void dverify(int g, SM *r, const char *what) { int t, nd, d[7], lo[2] = { 0, 0 }, hi[2] = { r->n - 1, r->m - 1 }, ld = r->m, i; char b[MX * MX * 16]; NGA_Inquire(g, &t, &nd, d); if (nd != 2 || d[0] != r->n || d[1] != r->m) F("%s is %dx%d instead of %dx%d", what, d[0], d[1], r->n, r->m); NGA_Get(g, lo, hi, b, &ld); for (i = 0; i < r->n * r->m; i++) { double x, y; ge(b, T, i, &x, &y); if (x != r->v[i][0] || (CPLX(T) && y != r->v[i][1])) F("%s: element (%d,%d) is %g,%g instead of %g,%g", what, i / r->m, i % r->m, x, y, r->v[i][0], r->v[i][1]); } sim_count(0, r->n * r->m); GA_Sync(); }
static SM prod(SM *a, SM *b) { SM c; int i, j, k; memset(&c, 0, sizeof c); c.n = a->n; c.m = b->m; for (i = 0; i < a->n; i++) for (k = 0; k < a->m; k++) if (a->p[i * a->m + k]) for (j = 0; j < b->m; j++) if (b->p[k * b->m + j]) { c.p[i * c.m + j] = 1; mulc(a->v[i * a->m + k], b->v[k * b->m + j], c.v[i * c.m + j]); } return c; }
enum { O_INS, O_DUP, O_SCALE, O_SHIFT, O_DIAG, O_LEFT, O_RIGHT, O_MATVEC, O_COL, O_FROMD, O_TOD, O_SD, O_DS, O_MM, O_EXP, NO };
static const char *ON[] = { "assemble", "duplicate", "scale", "shift_diag", "get_diag", "diag_left_multiply", "diag_right_multiply", "matvec_multiply", "get_column", "create_from_dense", "create_from_sparse", "sprsdns_multiply", "dnssprs_multiply", "matmat_multiply", "export" };
static void scenario(int op, int sh, int pat, int how) { int n = SH[sh].n, m = SH[sh].m, i, j, s = 0, s2, g, g2; SM a = fill(n, m, pat, pat + how), b, c; double x[MX][2], y[MX][2]; char sc[16];
  if (op != O_FROMD) { strcpy(step_, "assemble"); s = build(&a, how); verify(s, &a, how, 0); } strcpy(step_, ON[op]);
  switch (op) {
  case O_INS: b = fill(SH[(sh + 1) % 9].n, SH[(sh + 1) % 9].m, 0, 1); if (nnz(&b) >= P) { s2 = build(&b, how + 1); verify(s2, &b, how, 0); verify(s, &a, how + 1, 0); if (how & 1) { NGA_Sprs_array_destroy(s2); } else { NGA_Sprs_array_destroy(s); s = build(&a, how + 2); verify(s2, &b, how, 0); NGA_Sprs_array_destroy(s2); } verify(s, &a, how, 0); } break;
  case O_DUP: s2 = NGA_Sprs_array_duplicate(s); verify(s2, &a, how, 0); pe(sc, T, 0, 2, 0); NGA_Sprs_array_scale(s, sc); verify(s2, &a, how, 0); NGA_Sprs_array_destroy(s); s = s2; GA_Sync(); verify(s, &a, how + 1, 0); break;
  case O_SCALE: pe(sc, T, 0, 3, CPLX(T) ? -1 : 0); NGA_Sprs_array_scale(s, sc); for (i = 0; i < n * m; i++) { double k[2] = { 3, CPLX(T) ? -1 : 0 }, r[2] = { 0, 0 }; mulc(k, a.v[i], r); a.v[i][0] = r[0]; a.v[i][1] = r[1]; } verify(s, &a, how, 0); break;
  case O_SHIFT: pe(sc, T, 0, 5, CPLX(T) ? 2 : 0); NGA_Sprs_array_shift_diag(s, sc); for (i = 0; i < n && i < m; i++) if (a.p[i * m + i]) { a.v[i * m + i][0] += 5; a.v[i * m + i][1] += CPLX(T) ? 2 : 0; } verify(s, &a, how, 0); break;
  case O_DIAG: memset(x, 0, sizeof x); for (i = 0; i < n && i < m; i++) { x[i][0] = a.v[i * m + i][0]; x[i][1] = a.v[i * m + i][1]; } g = -1; NGA_Sprs_array_get_diag(s, &g); vverify(g, n, x, 1, "the diagonal"); verify(s, &a, how, 0); GA_Destroy(g); break;
  case O_LEFT: case O_RIGHT: g = vec(op == O_LEFT ? n : m, how, x, how & 1); if (op == O_LEFT) NGA_Sprs_array_diag_left_multiply(s, g); else NGA_Sprs_array_diag_right_multiply(s, g); for (i = 0; i < n; i++) for (j = 0; j < m; j++) { double r[2] = { 0, 0 }; mulc(x[op == O_LEFT ? i : j], a.v[i * m + j], r); memcpy(a.v[i * m + j], r, sizeof r); } verify(s, &a, how, 0); vverify(g, op == O_LEFT ? n : m, x, 1, "the diagonal operand"); GA_Sync(); GA_Destroy(g); break;
  case O_MATVEC: g = vec(m, how, x, how & 1); g2 = vec(n, how + 1, y, how & 2); memset(y, 0, sizeof y); NGA_Sprs_array_matvec_multiply(s, g, g2); for (i = 0; i < n; i++) for (j = 0; j < m; j++) mulc(a.v[i * m + j], x[j], y[i]); vverify(g2, n, y, 1, "the product"); vverify(g, m, x, 1, "the operand"); verify(s, &a, how, 0); GA_Destroy(g); GA_Destroy(g2); break;
  case O_COL: for (j = 0; j < m; j++) { g = L64 ? NGA_Sprs_array_get_column64(s, j) : NGA_Sprs_array_get_column(s, j); snprintf(step_, sizeof step_, "get_column %d", j); vverify(g, n, a.v + j, m, "the column"); GA_Sync(); GA_Destroy(g); } verify(s, &a, how, 0); break;
  case O_FROMD: g = dense(n, m, how, 1, &b); s = L64 ? NGA_Sprs_array_create_from_dense64(g) : NGA_Sprs_array_create_from_dense(g); for (i = 0; i < n * m; i++) b.p[i] = b.v[i][0] != 0 || b.v[i][1] != 0; for (i = 0; i < n && i < m; i++) b.p[i * m + i] = 1; verify(s, &b, how, 0); dverify(g, &b, "the dense operand"); GA_Destroy(g); break;
  case O_TOD: g = NGA_Sprs_array_create_from_sparse(s); dverify(g, &a, "the dense array"); verify(s, &a, how, 0); GA_Destroy(g); break;
  case O_SD: g = dense(m, SH[(sh + how) % 9].m, how, 0, &b); g2 = NGA_Sprs_array_sprsdns_multiply(s, g); c = prod(&a, &b); dverify(g2, &c, "the product"); dverify(g, &b, "the dense operand"); verify(s, &a, how, 0); GA_Destroy(g); GA_Destroy(g2); break;
  case O_DS: g = dense(SH[(sh + how) % 9].n, n, how, 0, &b); g2 = NGA_Sprs_array_dnssprs_multiply(g, s); c = prod(&b, &a); dverify(g2, &c, "the product"); dverify(g, &b, "the dense operand"); verify(s, &a, how, 0); GA_Destroy(g); GA_Destroy(g2); break;
  case O_MM: b = fill(m, SH[(sh + how) % 9].m, (pat + how) % 8, how); c = prod(&a, &b); if (nnz(&b) < P || nnz(&c) < P) break; s2 = build(&b, how + 1); { int s3 = NGA_Sprs_array_matmat_multiply(s, s2); GA_Sync(); verify(s3, &c, how, 0); verify(s, &a, how, 0); verify(s2, &b, how, 0); NGA_Sprs_array_destroy(s2); NGA_Sprs_array_destroy(s3); } break;
  case O_EXP: { char fn[64]; snprintf(fn, sizeof fn, "h_sprs.%d", (int)getpid()); NGA_Sprs_array_export(s, fn); GA_Sync();
    if (my == 0) { FILE *f = fopen(fn, "r"); char l[200]; long N_, M_, Z; unsigned char seen[MX * MX] = { 0 }; if (!f) F("no file is written"); unlink(fn); do if (!fgets(l, sizeof l, f)) F("the file has no size line"); while (l[0] == '%'); if (sscanf(l, "%ld %ld %ld", &N_, &M_, &Z) != 3 || N_ != n || M_ != m || Z != nnz(&a)) F("the size line of the file is %s", l);
      while (fgets(l, sizeof l, f)) { long r, q; double u, v = 0; int c = sscanf(l, "%ld %ld %lf %lf", &r, &q, &u, &v); if (c != (CPLX(T) ? 4 : 3)) F("the file has the line %s", l); r--; q--; if (r < 0 || r >= n || q < 0 || q >= m || !a.p[r * m + q] || seen[r * m + q]++) F("the file has a line for element (%ld,%ld)", r, q); if (u != a.v[r * m + q][0] || v != a.v[r * m + q][1]) F("the file has %g,%g for element (%ld,%ld) instead of %g,%g", u, v, r, q, a.v[r * m + q][0], a.v[r * m + q][1]); Z--; } fclose(f); if (Z) F("%ld elements are missing in the file", Z); sim_count(0, n * m); } verify(s, &a, how, 0); } break; }
  strcpy(step_, "destroy"); if (!NGA_Sprs_array_destroy(s)) F("NGA_Sprs_array_destroy fails"); }
static long heap0;
void scen_main(int rank, int np) { gboot(); part_begin(); int op0 = opt_("op", -1), ns = opt_("ns", 9), pats = opt_("pats", 8), thin = opt_("thin", 1), cr = opt_("core", 0); int no = op0 >= 0 ? 1 : NO; long per = (long)ns * pats * 7 * 2, nc = per * no; sim_set_cases((nc + thin - 1) / thin); long cs = sim_begin() * thin;
  int op = op0 >= 0 ? op0 : cs / per, sh = cs % per / (pats * 14), pat = cs / 14 % pats, how = (cs + cs / 14 + cs / 97) % 6; T = cs / 2 % 7; L64 = cs & 1; (void)cr;
  snprintf(w, sizeof w, "%s of a %dx%d %s matrix, pattern %d, insertion %d, %d-bit indices", ON[op], SH[sh].n, SH[sh].m, TN[T], pat, how, L64 ? 64 : 32); strcpy(step_, "start"); SM t = fill(SH[sh].n, SH[sh].m, pat, 0);
  int wide = op == O_DIAG || op == O_COL || op == O_TOD || op == O_SD || op == O_DS; /* these reject row counts below the process count with an error */
  int skip = (wide && SH[sh].n < P) || nnz(&t) < P || (T == 2 && op == O_MATVEC) || (op == O_FROMD && nnz(&t) < 2 * P) || (op == O_DS && (SH[sh].m < P || SH[(sh + how) % 9].n < P));
  if (!skip) { scenario(op == O_MM ? O_MM : O_INS, P < 4 ? 0 : 1, 0, 0); GA_Sync(); sim_barrier(); heap0 = sim_heap_live(sim_rank()); scenario(op, sh, pat, how); GA_Sync(); sim_barrier(); strcpy(step_, "the end"); if (sim_heap_live(sim_rank()) > heap0 && !opt_("noheap", 0)) F("%ld heap blocks more than before", sim_heap_live(sim_rank()) - heap0); if (opt_("left", 1) && cs % 3 == 0) { T = 4; SM z = fill(4, 4, 0, 1); build(&z, 0); } sim_barrier(); }
  GA_Sync(); sim_quiet(); GA_Terminate(); if (sim_live_shm()) F("GA_Terminate leaves %d shared memory segments", sim_live_shm()); MPI_Finalize(); }
