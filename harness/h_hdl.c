/* G22: the life of an array.  Every sequence of create / duplicate / assemble /
 * overlay / write / property / deallocate / allocate / destroy / limit operations
 * up to a depth over up to three arrays is executed; after each sequence every
 * live array holds its own values, names, handles and the memory accounts agree
 * with the model, and destroying everything gives everything back. */
#include "hga.h"
#include <stdarg.h>
#define MS 3
typedef struct { int st, g, k, t, own, ro, ov, asmb; RA r; long bytes; char nm[40]; void *mem; } Slot;   /* st 0 free 1 active 2 deallocated; own: this process takes part */
static Slot S[MS]; static int ns, salt, KD[3], TYA[3], DIMS[3][3], NDIM, DEPTH, seqn[16], LIMS; static long limit = -1; static char tr[2000];
static void T_(const char *f, ...) { va_list a; va_start(a, f); int k = strlen(tr); vsnprintf(tr + k, sizeof tr - k, f, a); va_end(a); if (getenv("HXV")) sim_note("%s", tr); }
#define F(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); sim_fail("after%s: %s", tr, b_); } while (0)
static const char *NAMES[4] = { "a", "a name with blanks", "0123456789012345678901234567890", "" };
static int gno(int k) { return k == D_GROUP ? in_group(k, P, my) : 1; }
/* bytes of a's data on this process, from the distribution the library reports */
static long mine(int g, int k, int es) { int nd = GA_Ndim(g), lo[MD], hi[MD], b, i, gme = GA_Pgroup_nodeid(GA_Get_pgroup(g)); long t = 0; if (BLOCKY(k)) { for (b = 0; b < GA_Total_blocks(g); b++) if (bowner(g, k, b) == my) { NGA_Distribution(g, b, lo, hi); t += vol(nd, lo, hi); } return t * es; }
  NGA_Distribution(g, gme, lo, hi); t = vol(nd, lo, hi) ? 1 : 0; for (i = 0; i < nd; i++) t *= hi[i] - lo[i] + 1 + (k == D_GHOST || k == D_GHIRREG ? 2 * GW[i] : 0); return t * es; }
static long used(void) { int i; long t = 0; for (i = 0; i < ns; i++) if (S[i].st == 1 && S[i].own && !S[i].ov) t += S[i].bytes; return t; }
static long *SH; /* per process: bytes the next array would take; used bytes */
static int fits(long need, int k) { int i, ok = 1; if (limit < 0) return 1; SH[my] = need; sim_barrier(); SH[64 + my] = used(); sim_barrier(); for (i = 0; i < P; i++) if (in_group(k, P, i) && SH[64 + i] + SH[i] > limit) ok = 0; sim_barrier(); return ok; }
static void fresh(Slot *s, int wr) { iota(&s->r, ++salt); if (s->own) { int q = s->k == D_GROUP ? GA_Pgroup_nodeid(GA_Get_pgroup(s->g)) : my, m = s->k == D_GROUP ? GA_Pgroup_nnodes(GA_Get_pgroup(s->g)) : P; (void)wr; if (salt % m == q) put_all(s->g, &s->r); gsync(s->g); } }
static int first(int st) { int i; for (i = 0; i < ns; i++) if (S[i].st == st) return i; return -1; }
static int last(int st) { int i; for (i = ns - 1; i >= 0; i--) if (S[i].st == st) return i; return -1; }
static void drop(int i) { free(S[i].r.v); ns--; for (; i < ns; i++) S[i] = S[i + 1]; }
static long KB[3]; static int KOK[3];   /* bytes per kind */
/* mk() of an array that may not fit: same calls, result checked here */
static int lasth; static int mk2(int c, const char *nm, int expect) { if (expect) { return mk(KD[c], TY[TYA[c]], NDIM, DIMS[c], 0, nm); }
  int g = GA_Create_handle(), d[MD], i; for (i = 0; i < NDIM; i++) d[i] = DIMS[c][i]; GA_Set_data(g, NDIM, d, TY[TYA[c]]); GA_Set_array_name(g, (char *)nm); if (KD[c] == D_GROUP) NGA_Set_pgroup(g, grpcache); if (KD[c] == D_BC) { int b[MD]; for (i = 0; i < NDIM; i++) b[i] = 2 + (i & 1); GA_Set_block_cyclic(g, b); }
  if (KD[c] == D_RRANGE) GA_Set_restricted_range(g, 1, P - 1); if (KD[c] == D_GHOST) { int w[MD]; for (i = 0; i < NDIM; i++) w[i] = GW[i]; GA_Set_ghosts(g, w); } lasth = g; return GA_Allocate(g) ? g : 0; }
static void create(int c) { int own = gno(KD[c]); const char *nm = NAMES[salt & 3]; int ok = fits(own ? KB[c] : 0, KD[c]); T_(" create(%s)%s", DN[KD[c]], ok ? "" : "[too big]");
  Slot *s = S + ns; memset(s, 0, sizeof *s); int g = 0; if (own) g = mk2(c, nm, ok); if (own && ok && !g) F("GA_Allocate fails although it fits"); if (own && !ok && g) F("an array beyond the memory limit is created"); if (!ok) { if (own && GA_Valid_handle(lasth)) F("the handle of the array that could not be created is valid"); return; }
  s->st = 1; s->g = g; s->k = KD[c]; s->t = TYA[c]; s->own = own; s->bytes = own ? mine(g, s->k, TS[s->t]) : 0; strcpy(s->nm, nm); s->r = ra(s->t, NDIM, DIMS[c]); if (own && s->bytes != KB[c]) F("model size"); ns++; fresh(s, 1); }
static void cloned(int i, int g, const char *nm) { Slot *s = S + ns, *o = S + i; memset(s, 0, sizeof *s); s->st = 1; s->g = g; s->k = o->k; s->t = o->t; s->own = o->own; s->bytes = o->bytes; strcpy(s->nm, nm); s->r = ra(s->t, NDIM, o->r.d); ns++;
  if (s->own) { int j, nd, ty, d[MD], e = GA_Pgroup_nodeid(GA_Get_pgroup(o->g)), nb = BLOCKY(s->k) ? GA_Total_blocks(g) : 1, b; NGA_Inquire(g, &ty, &nd, d); if (ty != TY[s->t] || nd != NDIM) F("the duplicate has type %d, %d dimensions", ty, nd); for (j = 0; j < nd; j++) if (d[j] != o->r.d[j]) F("the duplicate has other dimensions"); if (GA_Compare_distr(o->g, g)) F("the duplicate is distributed differently"); if (GA_Get_pgroup(g) != GA_Get_pgroup(o->g)) F("the duplicate lives on another group");
    (void)e; (void)b; (void)nb; if (mine(g, s->k, TS[s->t]) != s->bytes) F("the duplicate has other blocks"); } }
static void snapcmp(void) { int i; for (i = 0; i < ns; i++) { Slot *s = S + i; if (!s->own) continue; if (s->st == 2) { if (GA_Valid_handle(s->g)) F("a deallocated array is valid"); continue; } if (!GA_Valid_handle(s->g)) F("the handle of a live array is not valid"); if (!GA_Verify_handle(s->g)) F("GA_Verify_handle of a live array"); if (strcmp(GA_Inquire_name(s->g), s->nm)) F("array '%s' is called '%s'", s->nm, GA_Inquire_name(s->g)); int j; for (j = 0; j < i; j++) if (S[j].own && S[j].g == s->g) F("two arrays with the same handle"); } 
  for (i = 0; i < ns; i++) if (S[i].own && S[i].st == 1) { char w[80]; sprintf(w, "after%.40s", ""); gsync(S[i].g); if (!S[i].ro && !S[i].ov) local_all(S[i].g, S[i].k, &S[i].r, 0, tr); cmp_all(S[i].g, &S[i].r, tr); if (S[i].ro == 2) cmp_all(S[i].g, &S[i].r, tr); gsync(S[i].g); }
  int anyo = 0, anyr = 0; for (i = 0; i < ns; i++) if (S[i].st == 1) { anyo |= S[i].ov; anyr |= S[i].ro == 1 || S[i].asmb; }
  if (!anyo && !anyr) { if ((long)GA_Inquire_memory() != used()) F("GA_Inquire_memory is %ld instead of %ld", (long)GA_Inquire_memory(), used()); if (limit >= 0) { if (!GA_Memory_limited()) F("memory is not limited"); if ((long)GA_Memory_avail() != limit - used()) F("GA_Memory_avail is %ld; the limit is %ld, %ld are in use", (long)GA_Memory_avail(), limit, used()); } else { if (GA_Memory_limited()) F("memory is limited"); if ((long)GA_Memory_avail() >= 0) F("GA_Memory_avail is %ld although there is no limit", (long)GA_Memory_avail()); } } }
static void destroy(int i) { Slot *s = S + i; int g = s->g; if (s->own) { gsync(g); GA_Destroy(g); if (GA_Valid_handle(g)) F("a destroyed array is valid"); } drop(i); }
/* 0: does not apply */
static int op(int o) { int i; Slot *s;
  if (o < 3) { if (ns >= MS || !KOK[o]) return 0; create(o); return 1; } o -= 3;
  if (o < 2) { i = o ? last(1) : first(1); if (i < 0 || ns >= MS || S[i].ro == 1 || S[i].ov || S[i].asmb || (o && i == first(1))) return 0; s = S + i; const char *nm = NAMES[(salt + 1) & 3]; int ok = fits(s->own ? s->bytes : 0, s->k), g = 0; T_(" dup%d%s", i, ok ? "" : "[too big]"); int ro = s->ro; if (s->own) { g = GA_Duplicate(s->g, (char *)nm); if (ok && !g) F("GA_Duplicate fails although it fits"); if (!ok && g) F("a duplicate beyond the memory limit is created"); } if (!ok) return 1; cloned(i, g, nm); s = S + ns - 1; if (ro == 2 && s->own) { GA_Unset_property(g); } fresh(s, 1); return 1; } o -= 2;
  if (o < 3) { i = o == 0 ? 0 : o == 1 ? ns - 1 : 1; if (ns <= i || i < 0 || S[i].st != 1 || (o && i == 0) || (o == 2 && i == ns - 1)) return 0; int j; if (!S[i].ov) for (j = 0; j < ns; j++) if (S[j].ov && S[j].asmb == S[i].g) return 0; T_(" destroy%d", i); destroy(i); return 1; } o -= 3;
  if (o < 1) { i = first(1); if (i < 0 || S[i].ro == 1 || S[i].ov || S[i].asmb) return 0; int j; for (j = 0; j < ns; j++) if (S[j].ov && S[j].asmb == S[i].g) return 0; T_(" deallocate%d", i); s = S + i; if (s->own && !GA_Deallocate(s->g)) F("GA_Deallocate fails"); s->st = 2; return 1; } o -= 1;
  if (o < 1) { i = first(2); if (i < 0) return 0; s = S + i; int ok = fits(s->own ? s->bytes : 0, s->k); T_(" allocate%d%s", i, ok ? "" : "[too big]"); if (s->own) { int r = GA_Allocate(s->g); if (!!r != ok) F("GA_Allocate after GA_Deallocate %s", r ? "succeeds beyond the limit" : "fails"); } if (!ok) { drop(i); return 1; } s->st = 1; if (s->ro == 2) { s->ro = 0; if (s->own) GA_Unset_property(s->g); } fresh(s, 1); return 1; } o -= 1;
  if (o < 2) { i = o ? last(1) : first(1); if (i < 0 || S[i].ro || (o && i == first(1))) return 0; int j; for (j = 0; j < ns; j++) if (S[j].ov && (j == i || S[j].asmb == S[i].g)) return 0; T_(" write%d", i); fresh(S + i, 1); return 1; } o -= 2;
  if (o < 2) { i = first(1); if (i < 0 || S[i].ov || S[i].asmb || limit >= 0) return 0; int j; for (j = 0; j < ns; j++) if (S[j].ov) return 0; s = S + i; if (s->ro) { if (o) return 0; T_(" unset%d", i); if (s->own) { gsync(s->g); GA_Unset_property(s->g); gsync(s->g); } s->ro = 0; return 1; } if (o == 0 && s->k != D_REG && s->k != D_CHUNK1 && s->k != D_IRREG) return 0; T_(" %s%d", o ? "read_cache" : "read_only", i); if (s->own) { GA_Set_property(s->g, o ? "read_cache" : "read_only"); } s->ro = 1 + o; if (o && s->own) { cmp_all(s->g, &s->r, tr); cmp_all(s->g, &s->r, tr); gsync(s->g); } return 1; } o -= 2;
  if (o < 3) { static const int LM[3] = { 0, 1, -1 }; long big = 0; int k; if (!LIMS) return 0; for (i = 0; i < ns; i++) if (S[i].ro || S[i].ov || S[i].asmb) return 0; for (k = 0; k < 3; k++) if (KB[k] > big) big = KB[k]; SH[my] = big; sim_barrier(); for (k = 0; k < P; k++) if (SH[k] > big) big = SH[k]; sim_barrier(); SH[my] = used(); sim_barrier(); for (k = 0; k < P; k++) { if (SH[k] > 1 << 20) return 0; } sim_barrier(); long want = LM[o] < 0 ? -1 : LM[o] ? 2 * big : 3 * big + 4; if (want == limit) return 0; T_(" limit(%ld)", want); GA_Set_memory_limit(want); limit = want; return 1; } o -= 3;
  if (o < 1) { i = first(1); if (i < 0 || ns >= MS || S[i].k == D_GROUP || S[i].ro || S[i].ov || S[i].asmb || limit >= 0 || BLOCKY(S[i].k)) return 0; s = S + i; T_(" assemble%d", i); int es = TS[s->t]; void *m = GA_Getmem(TY[s->t], s->bytes / es, -1); if (s->bytes && !m) F("GA_Getmem fails"); memset(m, 0, s->bytes); int g = GA_Assemble_duplicate(s->g, "assembled", m); cloned(i, g, "assembled"); s = S + ns - 1; s->asmb = -5; fresh(s, 1); return 1; } o -= 1;
  if (o < 1) { i = first(1); if (i < 0 || ns >= MS || S[i].k != D_REG || S[i].ro || S[i].ov || S[i].asmb || limit >= 0) return 0; s = S + i; T_(" overlay%d", i); int h = GA_Create_handle(), d[MD], j; for (j = 0; j < NDIM; j++) d[j] = s->r.d[j]; GA_Set_data(h, NDIM, d, TY[s->t]); GA_Set_array_name(h, "overlay"); if (!GA_Overlay(h, s->g)) F("GA_Overlay fails"); RA keep = s->r; cloned(i, h, "overlay"); s = S + ns - 1; s->ov = 1; s->asmb = S[i].g; memcpy(s->r.v, keep.v, 2 * keep.N * sizeof(double)); return 1; } o -= 1;
  if (o < 1) { T_(" bad"); if (GA_Valid_handle(-1000 + 900) || GA_Valid_handle(-1001) || GA_Valid_handle(100000000) || GA_Valid_handle(0)) F("a handle that was never given out is valid"); return 1; } o -= 1;
  return -1; }
#define NOPS 21
static long *H0; static void clear(int how) { int i, b; if (how & 1) for (i = ns - 1; i >= 0; i--) { if (S[i].st == 2) { if (S[i].own) { GA_Set_memory_limit(-1); if (!GA_Allocate(S[i].g)) F("re-allocation"); } S[i].st = 1; } destroy(i); } else { for (i = 0; i < ns; i++) if (S[i].ov) destroy(i--); while (ns) { if (S[0].st == 2) { GA_Set_memory_limit(-1); if (S[0].own && !GA_Allocate(S[0].g)) F("re-allocation"); } destroy(0); } }
  GA_Set_memory_limit(-1); limit = -1; T_(" destroy-all"); if (GA_Inquire_memory()) F("everything is destroyed, GA_Inquire_memory is %ld", (long)GA_Inquire_memory()); GA_Sync(); b = H0[128 + my]; long h = sim_heap_live(my), m = sim_mapped(my); sim_barrier(); 
  if (!b) { H0[my] = h; H0[64 + my] = m; H0[192 + my] = sim_live_shm(); H0[128 + my] = 1; } else { if (h > H0[my] && !sim_optint("noheap", 0)) F("everything is destroyed, but %ld more heap blocks are in use than before", h - H0[my]); if (m != H0[64 + my]) F("everything is destroyed, but %ld shared memory mappings are left instead of %ld", m, H0[64 + my]); if (sim_live_shm() != H0[192 + my]) F("everything is destroyed, but %d shared memory segments are left instead of %ld", sim_live_shm(), H0[192 + my]); } sim_barrier(); }
static int run(int d) { int i, r = 1; tr[0] = 0; salt = 0; for (i = 0; i < d && r > 0; i++) r = op(seqn[i]); return r; }
static void dfs(int d) { int o; for (o = 0; o < NOPS; o++) { seqn[d] = o; int r = run(d + 1); if (r > 0) { snapcmp(); sim_count(1, 1); long h = ns; int i; for (i = 0; i < ns; i++) h = h * 131 + S[i].k * 8 + S[i].st * 64 + S[i].ro * 7 + S[i].ov * 3 + S[i].asmb; sim_state(h * 31 + limit); } clear(o + d); if (r > 0 && d + 1 < DEPTH) dfs(d + 1); } }
void scen_main(int rank, int np) { int i, c; gboot(); part_begin(); SH = (long *)sim_shared(); H0 = SH + 512; DEPTH = opt_("depth", 3); LIMS = opt_("limits", 0); int ks = opt_("kinds", 0), fix = opt_("fix", 2), term = opt_("term", 0);
  static const int KS[][3] = { { D_REG, D_GROUP, D_BC }, { D_IRREG, D_GHOST, D_RRANGE }, { D_CHUNK1, D_RESTR, D_TILED }, { D_SCAL, D_GHIRREG, D_TILEDIRR }, { D_GROUP, D_RRANGE, D_REG } }; static const int TT[][3] = { { 4, 0, 6 }, { 1, 3, 5 }, { 6, 4, 0 }, { 2, 4, 1 }, { 0, 5, 4 } };
  NDIM = 2; for (c = 0; c < 3; c++) { KD[c] = KS[ks][c]; TYA[c] = TT[ks][c]; DIMS[c][0] = opt_("d0", 4) + c; DIMS[c][1] = opt_("d1", 5) - (c & 1); KOK[c] = kind_ok(KD[c], NDIM, DIMS[c], 0); if (LIMS && KD[c] != D_REG && KD[c] != D_GROUP && KD[c] != D_BC && KD[c] != D_RRANGE && KD[c] != D_GHOST) KOK[c] = 0; KB[c] = 0; if (KOK[c] && gno(KD[c])) { int g = mk(KD[c], TY[TYA[c]], NDIM, DIMS[c], 0, "probe"); KB[c] = mine(g, KD[c], TS[TYA[c]]); GA_Destroy(g); } GA_Sync(); }
  { int g; for (i = 0; i < 3; i++) for (c = 0; c < 3; c++) if (KOK[c] && gno(KD[c])) { g = mk(KD[c], TY[TYA[c]], NDIM, DIMS[c], 0, "warm"); int g2 = GA_Duplicate(g, "warm"); RA r = ra(TYA[c], NDIM, DIMS[c]); iota(&r, 1); put_all(g, &r); gsync(g); cmp_all(g, &r, "warm"); gsync(g); free(r.v); GA_Destroy(g2); GA_Destroy(g); } GA_Sync(); int w[2 * MS]; for (i = 0; i < 2 * MS; i++) w[i] = mk(D_REG, C_INT, NDIM, DIMS[0], 0, "warm"); for (i = 0; i < 2 * MS; i++) GA_Destroy(w[i]); GA_Sync(); }
  long nc = 1; for (i = 0; i < fix; i++) nc *= NOPS; long thin = opt_("thin", 1); sim_set_cases((nc + thin - 1) / thin); long cs = sim_begin() * thin, q = cs; sim_shared(); clear(0); for (i = fix - 1; i >= 0; i--) { seqn[i] = q % NOPS; q /= NOPS; }
  if (opt_("core", 0)) { sim_quiet(); tr[0] = 0; int r = 1; for (i = 0; i < fix - 1 && r > 0; i++) r = op(seqn[i]); if (r > 0) { sim_resume(); r = op(seqn[fix - 1]); if (r > 0 && opt_("core", 0) == 2) clear(0); sim_quiet(); if (r > 0 && ns) snapcmp(); sim_count(1, r > 0); } clear(0); GA_Sync(); GA_Terminate(); MPI_Finalize(); return; }
  int ok = run(fix); if (term) { if (ok > 0) { snapcmp(); sim_count(1, 1); } GA_Sync(); GA_Terminate(); if (ok > 0) { if (sim_live_shm()) F("GA_Terminate leaves %d shared memory segments", sim_live_shm()); } MPI_Finalize(); return; }
  if (ok > 0) { snapcmp(); sim_count(1, 1); } clear(cs & 1); if (fix > 1 && cs % NOPS == 0) { run(fix - 1); if (ns) snapcmp(); clear(1); } if (ok > 0 && DEPTH > fix) dfs(fix);
  GA_Sync(); sim_quiet(); GA_Terminate(); if (sim_live_shm()) F("GA_Terminate leaves %d shared memory segments", sim_live_shm()); MPI_Finalize(); }
