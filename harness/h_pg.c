/* C08 at the level of GA: groups denote exactly their members, in every nesting, and do not interfere */
#include "hg.h"
struct sh { volatile long arrive[64]; volatile long gid[64]; };
static int slot;
static char W[200];
#define F(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_fail("%s: %s", W, _b); } while (0)
/* called by the members of g; m: their world ranks, ascending */
static void verify(int g, const int *m, int k, int salt) { int i, mine = -1, r; struct sh *S = sim_shared(); for (i = 0; i < k; i++) if (m[i] == me) mine = i; if (mine < 0) F("harness: not a member");
  if (GA_Pgroup_nnodes(g) != k) F("nnodes %d instead of %d", GA_Pgroup_nnodes(g), k); if (GA_Pgroup_nodeid(g) != mine) F("nodeid %d instead of %d", GA_Pgroup_nodeid(g), mine);
  for (i = 0; i < k; i++) if (GA_Pgroup_absolute_id(g, i) != m[i]) F("absolute_id(%d) is %d instead of %d", i, GA_Pgroup_absolute_id(g, i), m[i]);
  /* barrier: nobody leaves before everybody arrived */
  long key = m[0] * 8 + (salt & 7); __atomic_add_fetch(&S->arrive[key % 64], 1, __ATOMIC_SEQ_CST); long want = 0; (void)want; GA_Pgroup_sync(g); if (S->arrive[key % 64] % k && S->arrive[key % 64] < k) F("sync left with %ld of %d members arrived", S->arrive[key % 64], k);
  int x[3], sum = 0, mx = 0; long l[2]; double d[2]; for (i = 0; i < k; i++) { sum += m[i] * 3 + salt; if (m[i] * 3 + salt > mx) mx = m[i] * 3 + salt; }
  x[0] = me * 3 + salt; x[1] = 1; x[2] = me; GA_Pgroup_igop(g, x, 3, "+"); if (x[0] != sum || x[1] != k) F("sum %d of %d instead of %d of %d", x[0], x[1], sum, k);
  d[0] = me * 3 + salt; d[1] = -me; GA_Pgroup_dgop(g, d, 2, "max"); if (d[0] != mx || d[1] != -m[0]) F("maximum %g %g instead of %d %d", d[0], d[1], mx, -m[0]);
  for (r = 0; r < k; r++) { l[0] = mine == r ? 1000 + m[r] * 10 + salt : -1; l[1] = mine == r ? ~l[0] : 5; GA_Pgroup_brdcst(g, l, sizeof l, r); if (l[0] != 1000 + m[r] * 10 + salt || l[1] != ~l[0]) F("broadcast from %d delivers %ld", r, l[0]); }
  int old = GA_Pgroup_get_default(); GA_Pgroup_set_default(g); if (GA_Pgroup_get_default() != g) F("get_default"); if (GA_Nnodes() != k || GA_Nodeid() != mine) F("as default group: %d of %d instead of %d of %d", GA_Nodeid(), GA_Nnodes(), mine, k);
  x[0] = me; GA_Igop(x, 1, "+"); for (sum = i = 0; i < k; i++) sum += m[i]; if (x[0] != sum) F("default-group sum %d instead of %d", x[0], sum); l[0] = mine == k - 1 ? 77 + salt : 0; GA_Brdcst(l, 8, k - 1); if (l[0] != 77 + salt) F("default-group broadcast"); GA_Sync();
  int dim = 2 * k + 1, lo, hi, ld = 1, t = NGA_Create(C_INT, 1, &dim, "a", 0), u = NGA_Create_config(C_INT, 1, &dim, "b", 0, g), b[64], c[64], cover = 0; int64_t z = 0;
  if (!t || !u) F("create failed"); if (GA_Get_pgroup(t) != g || GA_Get_pgroup(u) != g) F("get_pgroup %d %d instead of %d", GA_Get_pgroup(t), GA_Get_pgroup(u), g); if (GA_Get_pgroup_size(g) != k) F("get_pgroup_size");
  for (i = 0; i < k; i++) { NGA_Distribution(t, i, &lo, &hi); if (hi >= lo) cover += hi - lo + 1; } if (cover != dim) F("an array of the group covers %d of %d elements", cover, dim); for (i = 0; i < dim; i++) { NGA_Distribution(t, mine, &lo, &hi); if ((NGA_Locate(t, &i) == mine) != (i >= lo && i <= hi)) F("locate"); }
  GA_Zero(t); GA_Zero(u); lo = 2 * mine; hi = lo + 1 + (mine == k - 1); for (i = 0; i < 3; i++) b[i] = 100 * salt + 10 * m[mine] + i; NGA_Put(t, &lo, &hi, b, &ld); int one = 1, zl = 0; int al = m[mine] + 1; NGA_Acc(u, &zl, &zl, &al, &ld, &one); GA_Sync();
  lo = 0; hi = dim - 1; NGA_Get(t, &lo, &hi, c, &ld); for (i = 0; i < dim; i++) { int o = i / 2 < k ? i / 2 : k - 1, e = 100 * salt + 10 * m[o] + i - 2 * o; if (c[i] != e) F("element %d of an array of the group is %d instead of %d", i, c[i], e); }
  NGA_Get(u, &zl, &zl, c, &ld); if (c[0] != sum + k) F("accumulates of the group: %d instead of %d", c[0], sum + k); NGA_Distribution(t, mine, &lo, &hi); if (hi >= lo) { int *p; NGA_Access(t, &lo, &hi, &p, &ld); for (i = lo; i <= hi; i++) { int o = i / 2 < k ? i / 2 : k - 1; if (p[i - lo] != 100 * salt + 10 * m[o] + i - 2 * o) F("local element %d", i); } NGA_Release(t, &lo, &hi); }
  GA_Destroy(t); GA_Destroy(u); GA_Pgroup_set_default(old); sim_count(1, 20 + 2 * k); }
static int list(int mask, int *l) { int i, k = 0; for (i = 0; i < n; i++) if (mask >> i & 1) l[k++] = i; return k; }
static void perm(const int *m, int k, int how, int *l) { int i; for (i = 0; i < k; i++) l[i] = how == 0 ? m[i] : how == 1 ? m[k - 1 - i] : m[(i + 1) % k]; }
/* everybody calls it in the world: groups of mask and of the rest, work in both at once, groups within each */
static void create(int mask, int how, int sub) { int m[2][16], k[2], l[16], g[2] = { -9, -9 }, s, i; k[0] = list(mask, m[0]); k[1] = list(~mask, m[1]);
  for (s = 0; s < 2; s++) if (k[s]) { perm(m[s], k[s], how, l); g[s] = GA_Pgroup_create(l, k[s]); }
  s = !(mask >> me & 1); int q; for (q = 0; q <= s; q++) verify(g[s], m[s], k[s], 1 + q);
  /* nested */
  GA_Pgroup_set_default(g[s]); int y[2][16], kk[2] = { 0, 0 }, rel[2][16], h[2] = { -9, -9 }; for (i = 0; i < k[s]; i++) { int c = sub == 0 ? i % 2 : sub == 1 ? i == 0 : i < k[s] / 2; rel[c][kk[c]] = i; y[c][kk[c]++] = m[s][i]; }
  int c, w = 0; for (c = 0; c < 2; c++) if (kk[c]) { perm(rel[c], kk[c], how, l); h[c] = GA_Pgroup_create(l, kk[c]); } for (i = 0; i < kk[1]; i++) if (y[1][i] == me) w = 1;
  snprintf(W, sizeof W, "mask %x list order %d, within it group %d of pattern %d", mask, how, w, sub); verify(h[w], y[w], kk[w], 3);
  /* splits of the group, nested in it */
  { int parts = 1 + (sub + how) % k[s], size = (k[s] + parts - 1) / parts, f = 0, x[16], nx = 0; for (i = 0; i < k[s]; i++) if (m[s][i] == me) f = i / size; for (i = f * size; i < k[s] && i < (f + 1) * size; i++) x[nx++] = m[s][i]; snprintf(W, sizeof W, "split of mask %x into %d parts", mask, parts); int p = GA_Pgroup_split(g[s], parts); verify(p, x, nx, 4); if (GA_Pgroup_get_default() != g[s]) F("the split changed the default group"); }
  GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Sync();
  snprintf(W, sizeof W, "mask %x list order %d after nested groups", mask, how); verify(g[s], m[s], k[s], 5);
  /* handles are reusable */
  if (sub == 0) { for (c = 0; c < 2; c++) if (k[c]) { if (c == s || 1) GA_Pgroup_destroy(g[c]); } GA_Sync(); int all[16]; for (i = 0; i < n; i++) all[i] = i; int a = GA_Pgroup_create(all, n); snprintf(W, sizeof W, "a group of all after the destruction of mask %x", mask); verify(a, all, n, 6); GA_Pgroup_destroy(a); }
  GA_Sync(); }
static void split(long c) { int col[16], i, x[16], nx = 0, all[16]; long v = c; for (i = 0; i < n; i++) { col[i] = v % 3; v /= 3; all[i] = i; } for (i = 0; i < n; i++) if (col[i] == col[me]) x[nx++] = i;
  snprintf(W, sizeof W, "split_irreg with colors"); for (i = 0; i < n; i++) sprintf(W + strlen(W), " %d", col[i]); int g = GA_Pgroup_split_irreg(GA_Pgroup_get_world(), col[me]); verify(g, x, nx, 1);
  int p, parts = 1 + c % n, size = (n + parts - 1) / parts, f = me / size, lo = f * size, k = 0, y[16]; for (i = lo; i < n && i < lo + size; i++) y[k++] = i; sprintf(W + strlen(W), ", split into %d", parts); p = GA_Pgroup_split(GA_Pgroup_get_world(), parts); verify(p, y, k, 2);
  /* a split of the color group */ { int sc = (c + 1) % 2 ? 0 : 1, z[16], nz = 0, mine = 0; for (i = 0; i < nx; i++) if (x[i] == me) mine = i; for (i = 0; i < nx; i++) if ((i & 1) == (mine & 1)) z[nz++] = x[i]; (void)sc; int q = GA_Pgroup_split_irreg(g, mine & 1); sprintf(W + strlen(W), ", odd and even of a color"); verify(q, z, nz, 3); }
  GA_Sync(); verify(g, x, nx, 4); GA_Sync(); verify(GA_Pgroup_get_world(), all, n, 5); GA_Sync(); }
static void dup(int mask) { int m[2][16], k[2], g[2] = { -9, -9 }, h[2] = { -9, -9 }, s, one[1] = { me }; k[0] = list(mask, m[0]); k[1] = list(~mask, m[1]); for (s = 0; s < 2; s++) if (k[s]) { g[s] = GA_Pgroup_create(m[s], k[s]); } for (s = 0; s < 2; s++) if (k[s]) h[s] = GA_Pgroup_duplicate(g[s]);
  s = !(mask >> me & 1); snprintf(W, sizeof W, "duplicate of mask %x", mask); if (h[s] == g[s]) F("the duplicate has the same handle"); verify(h[s], m[s], k[s], 1); snprintf(W, sizeof W, "original of mask %x", mask); verify(g[s], m[s], k[s], 2); GA_Sync(); for (s = 0; s < 2; s++) if (k[s]) GA_Pgroup_destroy(g[s]); s = !(mask >> me & 1); snprintf(W, sizeof W, "duplicate of destroyed mask %x", mask); verify(h[s], m[s], k[s], 3); GA_Sync();
  GA_Pgroup_set_default(h[s]); { int q = GA_Pgroup_duplicate(h[s]), r; snprintf(W, sizeof W, "duplicate of the default group of mask %x", mask); verify(q, m[s], k[s], 5); int rel[16], y[16], z = 0, i, mine = 0; for (i = 0; i < k[s]; i++) if (m[s][i] == me) mine = i; for (i = 0; i < k[s]; i++) if ((i & 1) == (mine & 1)) { rel[z] = i; y[z++] = m[s][i]; }
    r = GA_Pgroup_create(rel, z); int o[16], oz = 0; (void)o; (void)oz; q = GA_Pgroup_duplicate(r); snprintf(W, sizeof W, "duplicate of a group nested in mask %x", mask); verify(q, y, z, 6); GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Sync(); q = GA_Pgroup_duplicate(r); snprintf(W, sizeof W, "duplicate, made in the world, of a group nested in mask %x", mask); verify(q, y, z, 7); GA_Sync(); }
  { int all[16], i, q = GA_Pgroup_duplicate(GA_Pgroup_get_world()); for (i = 0; i < n; i++) all[i] = i; snprintf(W, sizeof W, "duplicate of the world"); verify(q, all, n, 8); GA_Sync(); }
  snprintf(W, sizeof W, "group of one's own"); int f = GA_Pgroup_self(); verify(f, one, 1, 4); GA_Sync(); }
void scen_main(int rank, int np) { gboot(); const char *sc = sim_scenario(); long p3 = 1; int i; for (i = 0; i < n; i++) p3 *= 3; int nm = (1 << n) - 1;
  sim_set_cases(!strcmp(sc, "create") ? nm * 9 : !strcmp(sc, "split") ? p3 : nm); long c = sim_begin(); snprintf(W, sizeof W, "case %ld", c); struct sh *S = sim_shared(); (void)S;
  if (!strcmp(sc, "create")) { snprintf(W, sizeof W, "mask %lx list order %ld", 1 + c % nm, c / nm % 3); create(1 + c % nm, c / nm % 3, c / nm / 3); } else if (!strcmp(sc, "split")) split(c); else dup(1 + c); sim_state(c * 16 + me); sim_count(0, 1);
  ARMCI_Barrier(); }
