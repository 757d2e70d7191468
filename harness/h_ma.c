/* M18: the MA heap/stack allocator, every operation sequence up to a depth.
 * A case is a first pair of operations; within it all continuations are
 * executed on the real allocator.  Every sequence ends with everything
 * released, which must restore the initial inquiry values. */
#include "hx.h"
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include "macdecls.h"
extern int ARMCI_Init(void);
#define MAXL 12
typedef struct { Integer h; int t; long n; char *p; int stack; unsigned tag; } Blk;
static Blk L[MAXL]; static int nl; static unsigned tags; static char *seg_lo, *seg_hi; static int numalign, seqn[16], seql; static char tr[1200];
static int T[8], NT, DEPTH; static long SZ[8]; static int NS;
static long tsz(int t) { switch (t) { case MT_C_CHAR: case MT_F_BYTE: return 1; case MT_C_INT: case MT_C_FLOAT: return 4; case MT_C_DBL: case MT_C_LONGINT: case MT_C_LONGLONG: case MT_C_SCPL: return 8; case MT_C_DCPL: case MT_C_LDBL: return 16; case MT_F_INT: case MT_F_LOG: return sizeof(Integer); case MT_F_REAL: return sizeof(float) ; case MT_F_DBL: return 8; case MT_F_SCPL: return 8; case MT_F_DCPL: return 16; } return 32; }
static void F(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); sim_fail("after%s: %s", tr, b); }
static void T_(const char *f, ...) { va_list a; va_start(a, f); int k = strlen(tr); vsnprintf(tr + k, sizeof tr - k, f, a); va_end(a); }
static unsigned char pat(unsigned tag, long i) { return (unsigned char)(tag * 37 + i * 11 + (i >> 8)); }
static void fill(Blk *b) { long i, n = b->n * tsz(b->t); b->tag = ++tags; for (i = 0; i < n; i++) b->p[i] = pat(b->tag, i); }
static void intact(Blk *b) { long i, n = b->n * tsz(b->t); for (i = 0; i < n; i++) if ((unsigned char)b->p[i] != pat(b->tag, i)) F("byte %ld of a live block of %ld elements of type %d changed", i, b->n, b->t); }
static void place(Blk *b, int full) { int i; char *e = b->p + b->n * tsz(b->t); MA_AccessIndex ix; void *p = 0;
  if (b->n && (b->p < seg_lo || e > seg_hi + 8)) F("block lies outside the segment");
  for (i = 0; i < nl; i++) { Blk *o = L + i; if (o == b) continue; if (b->p < o->p + o->n * tsz(o->t) && o->p < e && b->n && o->n) F("blocks overlap"); }
  if (!MA_get_pointer(b->h, &p) || p != b->p) F("get_pointer changed");
  if (!MA_get_index(b->h, &ix) || (char *)MA_get_mbase(b->t) + ix * tsz(b->t) != b->p) F("index does not denote the block");
  if (numalign && ((size_t)b->p & (((size_t)1 << numalign) - 1)) && (1 << numalign) >= tsz(b->t) && !(((size_t)MA_get_mbase(b->t)) % (size_t)tsz(b->t))) F("block not aligned to 2^%d", numalign);
  if (full) intact(b); }
static int alloc(int st, int t, long n) { long fit = st ? MA_inquire_stack_no_partition(t) : MA_inquire_heap_no_partition(t); Integer h = -77; Blk *b = L + nl; void *p;
  MA_AccessIndex gx = -1; int get = t == T[1] && n > 1;
  int ok = get ? (st ? MA_push_get(t, n, "b", &h, &gx) : MA_alloc_get(t, n, "b", &h, &gx)) : st ? MA_push_stack(t, n, "b", &h) : MA_allocate_heap(t, n, "b", &h);
  T_(" %s(%d,%ld)%s", st ? "push" : "alloc", t, n, ok ? "" : "=no");
  if (n < 0 && ok) F("negative size accepted");
  if (n > fit && ok && !(n == 0)) F("%ld elements allocated, although at most %ld were available", n, fit);
  if (n >= 0 && n <= fit && fit > 0 && !ok) F("%ld elements not allocated, although %ld were available", n, fit);
  if (!ok) return 0;
  if (nl >= MAXL) F("too many blocks"); *b = (Blk) { h, t, n, 0, st, 0 }; if (!MA_get_pointer(h, &p)) F("no pointer"); b->p = p; if (get && (char *)MA_get_mbase(t) + gx * tsz(t) != (char *)p) F("the index returned with the handle does not denote the block"); int i; for (i = 0; i < nl; i++) if (L[i].h == h) F("handle given out twice"); nl++; place(b, 0); fill(b); return 1; }
static void drop(int i) { nl--; for (; i < nl; i++) L[i] = L[i + 1]; }
static int kth(int st, int k) { int i; for (i = 0; i < nl; i++) if (L[i].stack == st && !k--) return i; return -1; }
static int top(void) { int i, r = -1; for (i = 0; i < nl; i++) if (L[i].stack) r = i; return r; }
/* operation number o; returns 0 if it does not apply */
static int op(int o) { int i, k;
  if (o < 2 * NT * NS) { alloc(o / (NT * NS), T[o / NS % NT], SZ[o % NS]); return 1; } o -= 2 * NT * NS;
  if (o < 4) { i = kth(0, o); if (i < 0) return 0; T_(" free%d", o); intact(L + i); if (!MA_free_heap(L[i].h)) F("free failed"); drop(i); return 1; } o -= 4;
  if (o < 6) { i = kth(0, o / 2); if (i < 0) return 0; Blk *b = L + i; long n = o & 1 ? b->n / 2 : 1; if (n >= b->n && (o & 1)) return 0; T_(" piece%d(%ld)", o / 2, n); if (!MA_free_heap_piece(b->h, n)) F("free_heap_piece failed"); if (n >= b->n) drop(i); else b->n -= n; return 1; } o -= 6;
  if (o < 1) { i = top(); if (i < 0) return 0; T_(" pop"); if (!MA_pop_stack(L[i].h)) F("pop of the top failed"); drop(i); return 1; } o -= 1;
  if (o < 3) { i = kth(1, o); if (i < 0 || i == top()) return 0; T_(" chop%d", o); if (!MA_chop_stack(L[i].h)) F("chop failed"); for (k = nl - 1; k >= i; k--) if (L[k].stack) drop(k); return 1; } o -= 3;
  /* misuse: must fail and change nothing */
  switch (o) { case 0: i = kth(1, 0); if (i < 0) return 0; T_(" free(stack)"); if (MA_free_heap(L[i].h)) F("heap free of a stack block accepted"); return 1;
    case 1: i = kth(0, 0); if (i < 0) return 0; T_(" pop(heap)"); if (MA_pop_stack(L[i].h)) F("pop of a heap block accepted"); if (MA_chop_stack(L[i].h)) F("chop of a heap block accepted"); return 1;
    case 2: i = kth(1, 0); if (i < 0 || i == top()) return 0; T_(" pop(below top)"); if (MA_pop_stack(L[i].h)) F("pop of a block below the top accepted"); return 1;
    case 3: T_(" bad"); if (MA_free_heap(9999) || MA_free_heap(-1) || MA_pop_stack(9999) || MA_chop_stack(-1) || MA_free_heap_piece(9999, 1)) F("bad handle accepted"); { Integer h; if (MA_allocate_heap(T[0], -1, "x", &h) || MA_push_stack(T[0], -1, "x", &h)) F("negative size accepted"); } i = kth(0, 0); if (i >= 0 && MA_free_heap_piece(L[i].h, -1)) F("negative piece accepted"); return 1;
    case 4: { Integer h; int s; long big[3]; int t = T[NT - 1]; T_(" huge"); big[0] = LONG_MAX; big[1] = LONG_MAX / tsz(t) + 1; big[2] = big[1] * 2 > 0 ? big[1] * 2 : big[1]; for (k = 0; k < 3; k++) for (s = 0; s < 2; s++) if (s ? MA_push_stack(t, big[k], "x", &h) : MA_allocate_heap(t, big[k], "x", &h)) F("%s of %ld elements of %ld bytes succeeded", s ? "push" : "allocation", big[k], tsz(t)); return 1; } }
  return -1; }
static void probe(int st, int t, long n, const char *what) { Integer h; void *p; long i; if (n <= 0) return; if (!(st ? MA_push_stack(t, n, "q", &h) : MA_allocate_heap(t, n, "q", &h))) F("%s says %ld of type %d, but allocating them fails", what, n, t);
  if (!MA_get_pointer(h, &p)) F("probe pointer"); Blk b = { h, t, n, p, st, 0 }; for (i = 0; i < nl; i++) if (b.p < L[i].p + L[i].n * tsz(L[i].t) && L[i].p < b.p + n * tsz(t) && L[i].n) F("%s says %ld of type %d: they overlap a live block", what, n, t); memset(p, 0x5a, n * tsz(t));
  if (!(st ? MA_pop_stack(h) : MA_free_heap(h))) F("probe release"); }
static void check(void) { int i, k; for (i = 0; i < nl; i++) place(L + i, 1); if (!MA_verify_allocator_stuff()) F("MA_verify_allocator_stuff fails");
  for (k = 0; k < NT; k++) { int t = T[k]; Integer h;
    long a = MA_inquire_avail(t), hp = MA_inquire_heap_no_partition(t), hc = MA_inquire_heap_check_stack(t), sp = MA_inquire_stack_no_partition(t), sc = MA_inquire_stack_check_heap(t), hh = MA_inquire_heap(t), ss = MA_inquire_stack(t);
    if (a != sp) F("inquire_avail %ld, inquire_stack_no_partition %ld", a, sp); if (hp < a) F("heap_no_partition %ld below avail %ld", hp, a); if (hc > hp) F("heap_check_stack %ld above heap_no_partition %ld", hc, hp); if (sc > sp) F("stack_check_heap %ld above stack_no_partition %ld", sc, sp); if (hc > hh) F("heap_check_stack %ld above inquire_heap %ld", hc, hh); if (sc > ss) F("stack_check_heap %ld above inquire_stack %ld", sc, ss);
    probe(0, t, hp, "heap_no_partition"); probe(0, t, hc, "heap_check_stack"); probe(1, t, sp, "stack_no_partition"); probe(1, t, sc, "stack_check_heap"); probe(1, t, a, "avail");
    if (hp > 0 && MA_allocate_heap(t, hp + 1, "q", &h)) F("heap_no_partition says %ld, but %ld can be allocated", hp, hp + 1);
    if (sp > 0 && MA_push_stack(t, sp + 1, "q", &h)) F("stack_no_partition says %ld, but %ld can be pushed", sp, sp + 1); sim_count(1, 12); }
  for (i = 0; i < nl; i++) intact(L + i); if (!MA_verify_allocator_stuff()) F("MA_verify_allocator_stuff fails after the probes"); }
static long base[8][6]; static void snap(long v[8][6]) { int k; for (k = 0; k < NT; k++) { int t = T[k]; v[k][0] = MA_inquire_avail(t); v[k][1] = MA_inquire_heap(t); v[k][2] = MA_inquire_heap_no_partition(t); v[k][3] = MA_inquire_stack(t); v[k][4] = MA_inquire_stack_check_heap(t); v[k][5] = MA_inquire_heap_check_stack(t); } }
static void clear(int how) { int i; while ((i = top()) >= 0) { if (how & 1) { i = kth(1, 0); if (!MA_chop_stack(L[i].h)) F("final chop"); for (i = nl - 1; i >= 0; i--) if (L[i].stack) drop(i); } else { if (!MA_pop_stack(L[i].h)) F("final pop"); drop(i); } }
  while (nl) { i = how & 2 ? nl - 1 : 0; intact(L + i); if (!MA_free_heap(L[i].h)) F("final free"); drop(i); } long v[8][6]; snap(v); if (memcmp(v, base, NT * sizeof v[0])) F("everything is released, but the available space is not what it was"); }
static int NOP, GUARDS; static unsigned long hsh;
static int run(int d) { int i, r = 1; tr[0] = 0; nl = 0; for (i = 0; i < d && r > 0; i++) r = op(seqn[i]); return r; }
/* a byte next to a live block changed: the documented verification notices; changed back: it is content again */
static void guards(void) { int i, k; for (i = 0; i < nl; i++) for (k = 0; k < 2; k++) { char *g = k ? L[i].p + L[i].n * tsz(L[i].t) : L[i].p - 1; *g ^= 0x41; int ok = MA_verify_allocator_stuff(); *g ^= 0x41; if (ok) F("MA_verify_allocator_stuff does not notice a changed byte %s a block", k ? "after" : "before"); sim_count(0, 1); } if (!MA_verify_allocator_stuff()) F("MA_verify_allocator_stuff fails although every guard is restored"); }
static void dfs(int d) { int o; for (o = 0; o < NOP; o++) { seqn[d] = o; int r = run(d + 1); if (r > 0) { check(); sim_count(0, 1); long h = nl; int i; for (i = 0; i < nl; i++) h = h * 131 + (L[i].p - seg_lo) * 7 + L[i].n + L[i].stack; hsh = h ^ (MA_inquire_heap(T[0]) << 20) ^ (MA_inquire_avail(T[0]) << 40); sim_state(hsh); if (GUARDS) guards(); } clear(o + d); if (r > 0 && d + 1 < DEPTH) dfs(d + 1); } }
static void many(void) { int n = 2500, i, r; Integer *h = malloc(n * sizeof *h); for (r = 0; r < 3; r++) { for (i = 0; i < n; i++) { if (!MA_allocate_heap(MT_C_INT, 1 + i % 3, "m", h + i)) sim_fail("allocation %d of %d", i, n); int *p, k; MA_get_pointer(h[i], &p); for (k = 0; k < 1 + i % 3; k++) p[k] = i * 4 + k; }
    for (i = r == 1; i < n; i += 1 + (r == 1)) { int *p, k; if (!MA_get_pointer(h[i], &p)) sim_fail("pointer of block %d of %d", i, n); for (k = 0; k < 1 + i % 3; k++) if (p[k] != i * 4 + k) sim_fail("block %d of %d changed", i, n); }
    if (r == 1) { for (i = 0; i < n; i += 2) if (!MA_free_heap(h[i])) sim_fail("free"); for (i = 0; i < n; i += 2) { int *p, k; if (!MA_allocate_heap(MT_C_INT, 1 + i % 3, "m", h + i)) sim_fail("reallocation %d", i); MA_get_pointer(h[i], &p); for (k = 0; k < 1 + i % 3; k++) p[k] = i * 4 + k; } }
    if (!MA_verify_allocator_stuff()) sim_fail("verify of %d blocks", n);
    for (i = 0; i < n; i++) { int j = r == 0 ? i : r == 1 ? n - 1 - i : (i * 7) % n, *p, k; if (!MA_get_pointer(h[j], &p)) sim_fail("pointer of %d", j); for (k = 0; k < 1 + j % 3; k++) if (p[k] != j * 4 + k) sim_fail("block %d of %d changed", j, n); if (!MA_free_heap(h[j])) sim_fail("free %d of %d", j, n); } sim_count(0, n); } }
/* the sizing recipe of the manual: a segment of MA_sizeof(data) + n * MA_sizeof_overhead bytes holds any n allocations of that data, in any order */
static const int ST[5] = { MT_C_CHAR, MT_C_INT, MT_C_DBL, MT_C_DCPL, MT_C_LDCPL }; static const long SN[4] = { 1, 3, 10, 57 };
static void sizing(long cs, int len) { int seq[6], i, k, st, nb[2] = { 0, 0 }; long need[2] = { 0, 0 }; Integer h[6]; char *p[6]; long n[6]; st = cs % (1 << len); cs >>= len; for (i = 0; i < len; i++) { seq[i] = cs % 20; cs /= 20; }
  for (i = 0; i < len; i++) { int t = ST[seq[i] % 5]; long e = SN[seq[i] / 5]; n[i] = e * tsz(t); if (MA_sizeof(t, e, MT_C_CHAR) != n[i]) sim_fail("MA_sizeof(%d,%ld,char) is %ld", t, e, (long)MA_sizeof(t, e, MT_C_CHAR)); need[st >> i & 1] += n[i]; nb[st >> i & 1]++;
    for (k = 0; k < 5; k++) { long w = (n[i] + tsz(ST[k]) - 1) / tsz(ST[k]); if (MA_sizeof(t, e, ST[k]) != w) sim_fail("MA_sizeof(%d,%ld,%d) is %ld instead of %ld", t, e, ST[k], (long)MA_sizeof(t, e, ST[k]), w); if (MA_sizeof_overhead(ST[k]) * tsz(ST[k]) < MA_sizeof_overhead(MT_C_CHAR)) sim_fail("MA_sizeof_overhead(%d) is smaller than the overhead in bytes", ST[k]); } }
  if (MA_initialized()) sim_fail("initialized before MA_init"); for (k = 0; k < 2; k++) need[k] += nb[k] * MA_sizeof_overhead(MT_C_CHAR); if (!MA_init(MT_C_CHAR, need[1], need[0])) sim_fail("MA_init(%ld,%ld)", need[1], need[0]); if (!MA_initialized()) sim_fail("not initialized after MA_init");
  for (i = 0; i < len; i++) { int t = ST[seq[i] % 5]; long e = SN[seq[i] / 5]; if (!(st >> i & 1 ? MA_push_stack(t, e, "s", h + i) : MA_allocate_heap(t, e, "s", h + i))) sim_fail("allocation %d (%s, %ld elements of type %d) fails in a segment sized as documented", i, st >> i & 1 ? "stack" : "heap", e, t); MA_get_pointer(h[i], p + i); memset(p[i], i + 1, n[i]); }
  for (i = 0; i < len; i++) for (k = 0; k < n[i]; k++) if (p[i][k] != i + 1) sim_fail("block %d overwritten", i); sim_count(0, len * 7); sim_state(cs * 31 + st); }
void scen_main(int rank, int np) { int c = 0; char *v[1] = { 0 }; char **a = v; int i, k; MPI_Init(&c, &a);
  int ts = sim_optint("types", 0), heap = sim_optint("heap", 700), stack = sim_optint("stack", 500); DEPTH = sim_optint("depth", 4); numalign = sim_optint("align", 0);
  static const int TS[][3] = { { MT_C_CHAR, MT_C_DBL, 0 }, { MT_C_CHAR, MT_C_DCPL, 0 }, { MT_C_INT, MT_C_LDCPL, 0 }, { MT_F_INT, MT_F_DCPL, MT_C_CHAR } }; for (NT = 0; NT < 3 && TS[ts][NT]; NT++) T[NT] = TS[ts][NT];
  long z[] = { 3, sim_optint("big", 33), 0, 1 }; NS = sim_optint("sizes", 2); for (i = 0; i < NS; i++) SZ[i] = z[i];
  NOP = 2 * NT * NS + 4 + 6 + 1 + 3 + 5; GUARDS = sim_optint("guards", 0); int len = sim_optint("len", 2), siz = !strcmp(sim_scenario(), "sizing"); long nc = 1; for (i = 0; i < len; i++) nc *= 40; int many_ = !strcmp(sim_scenario(), "many");
  if (getenv("HXV")) fprintf(stderr, "nop %d\n", NOP); sim_set_cases(many_ ? 1 : siz ? nc : NOP * NOP); long cs = sim_begin(); if (!sim_optint("verbose", 0)) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); }
  if (siz) { sizing(cs, len); MPI_Finalize(); return; }
  if (many_) { MA_init(MT_C_CHAR, 1000, 600000); many(); MPI_Finalize(); return; }
  MA_set_error_print(0); MA_set_hard_fail(0); if (numalign) MA_set_numalign(numalign);
  if (!MA_init(MT_C_CHAR, stack, heap)) sim_fail("MA_init");
  { Integer h; void *p; long n = MA_inquire_avail(MT_C_CHAR); if (!MA_allocate_heap(MT_C_CHAR, n, "all", &h)) sim_fail("the available %ld bytes cannot be allocated", n); MA_get_pointer(h, &p); seg_lo = p; seg_hi = seg_lo + n; MA_free_heap(h); } /* client space of the largest block */
  snap(base); for (k = 0; k < NT; k++) { seg_lo = seg_lo; }
  seqn[0] = cs / NOP; if (run(1) > 0) { if (cs % NOP == 0) check(); clear(0); seqn[1] = cs % NOP; int r = run(2); if (r > 0) { check(); sim_count(0, 1); } clear(cs & 3); if (r > 0 && DEPTH > 2) dfs(2); } else clear(0);
  MPI_Finalize(); }
