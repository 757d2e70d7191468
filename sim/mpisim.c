/* mpisim: N ranks of the real GA/ComEx code as fibers of one process, on a simulated MPI, simulated
 * POSIX shared memory / semaphores / threads / node topology, under a controlled scheduler that
 * enumerates executions.  See /verif/DESIGN.md, "The simulator". */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <sched.h>
#include <time.h>
#include <complex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/vfs.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include "mpi.h"
#include "sim.h"
#include "simio.h"

#define MAXR 16
#define MAXF 64
#define MAXSEG 4096
#define STACKSZ (8u<<20)
#define MAXCH 200000
#define MAXDEV 12

/* ------------------------------------------------------------------ configuration */
static int NP = 2, nodeof[MAXR], NW = 8, verbose = 0;
static const char *SO = 0, *SCEN = "", *OUT = 0, *REPLAY = 0;
static long eager_lim = 1L << 40;
static int rma_mode = 1;           /* 0 eager, 1 lazy fifo, 2 lazy reversed */
static int budget = 0;
static unsigned kinds = 0xffff;    /* bit per choice kind */
static long max_exec = 1L << 60, max_steps = 3000000;
static double tlimit = 1e9;
static int cpu_limit = 40;
static char *optk[64], *optv[64]; static int nopt;
static int fair_bound = 3000;
static int tsan_on = 0;
static long case_lo = 0, case_hi = 1L << 60;

enum { K_SCHED, K_MATCH, K_HIDE, K_TEST, K_RMA, K_ENV, K_IO, K_MEM, K_PICK = 15 };
static const char *kname[16] = { "sched", "match", "hide", "test", "rma", "env", "io", "mem", "?", "?", "?", "?", "?", "?", "?", "pick" };

/* ------------------------------------------------------------------ shared between processes */
typedef struct { uint32_t pos; uint16_t alt, cost; } dev_t_;
typedef struct { long cas; int ndev, used; dev_t_ d[MAXDEV]; } task;
typedef struct { uint16_t n; uint8_t kind; } chrec;
typedef struct {
  volatile int status;             /* 0 running, 1 pass, 2 fail */
  char msg[1024];
  long steps, nch, execs; int over;
  uint64_t tracehash;
  chrec ch[MAXCH];
} result;
typedef struct { char msg[1024]; task t; int confirmed; } viol;
#define HBITS 24
typedef struct {
  volatile int lock; volatile int active; volatile int stop;
  volatile long ntask, execs, steps, states, traces, truncated, nviol, maxch, counters[16], overflow, unconf, devused[MAXDEV+1], cases_done, timeouts, sumch;
  viol v[256];
  long cap;
} shared_t;
static shared_t *S; static task *stackT; static volatile uint64_t *hset, *tset;
static result *R;                  /* of this worker */

/* ------------------------------------------------------------------ fibers */
enum { F_FREE, F_RUN, F_SPIN, F_BLOCK, F_DONE };
typedef struct fiber {
  int id, rank, state; void *sp; char *stk;
  void *(*fn)(void *); void *arg, *ret;
  int (*cond)(void *); void *carg; unsigned long spin_epoch; int joined, detached, is_main; uint64_t h; const char *what;
  int atomic_depth;
} fiber;
static fiber F[MAXF]; static int nF; static fiber *cur; static void *sched_sp;
static unsigned long repoch[MAXR]; static int rank_nf[MAXR]; static int participant[MAXR]; static long idle; static long consec; static int rr;
static long nsteps, clk; static int exploring, in_child;
static int expected, arrived, ended, begun; static int rank_exited[MAXR], rank_fin[MAXR], rank_init[MAXR];
static long curcase, ncases = 1; static int expect_abort;
static task *T; static int tdev; static long npos; static char *oracle;
static int mains_done;

void sim_switch(void **from, void *to);
__asm__(".text\n.globl sim_switch\nsim_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
        " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");

static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; return a; }
static void die(const char *fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "mpisim: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); fflush(0); _exit(2); }
static int logfd = -1;
static void vlog(const char *fmt, ...) { if (!verbose) return; char b[1200]; va_list a; va_start(a, fmt); int n = snprintf(b, sizeof b, "[%ld] r%d/f%d ", clk, cur ? cur->rank : -1, cur ? cur->id : -1); n += vsnprintf(b + n, sizeof b - n - 2, fmt, a); va_end(a); if (n > (int)sizeof b - 2) n = sizeof b - 2; b[n++] = '\n'; if (write(logfd >= 0 ? logfd : 2, b, n) < 0) {} }

static int hs_insert(volatile uint64_t *set, uint64_t h) {
  if (!h) h = 1; uint64_t i = h >> (64 - HBITS);
  for (int k = 0; k < 64; k++, i = (i + 1) & ((1ull << HBITS) - 1)) {
    uint64_t v = set[i]; if (v == h) return 0;
    if (!v) { if (__sync_bool_compare_and_swap(&set[i], 0, h)) return 1; if (set[i] == h) return 0; }
  }
  return 0;
}
static uint64_t allhash(void) { uint64_t x = 0; for (int i = 0; i < nF; i++) x += mix(F[i].h, i + 1); return x; }
static void ev(uint64_t k) { if (cur) cur->h = mix(cur->h, k); }
static void progress(void) { for (int i = 0; i < NP; i++) repoch[i]++; idle = 0; }
static void progress_rank(int r) { repoch[r]++; idle = 0; }
static void state_point(void) { if (in_child && exploring) { if (hs_insert(hset, mix(allhash(), curcase))) __sync_fetch_and_add(&S->states, 1); } }

static void finish(int st, const char *msg) {
  if (!in_child) { if (st == 2) die("failure before exploration: %s", msg); fflush(0); _exit(0); }
  if (st == 2) snprintf(R->msg, sizeof R->msg, "%s", msg);
  vlog("END %s %s", st == 1 ? "ok" : "FAIL", msg ? msg : "");
  R->steps = nsteps; R->nch = npos; R->tracehash = mix(allhash(), curcase); __sync_synchronize(); R->status = st; fflush(0); _exit(0);
}
static void fail(const char *fmt, ...) { char b[1000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (expect_abort == 2) finish(1, 0);
  finish(2, b); }

/* ------------------------------------------------------------------ choices */
static int choose(int n, int kind, const char *what) {
  if (n <= 1 || !exploring || !in_child) return 0;
  if (kind != K_PICK && !(kinds >> kind & 1)) return 0;
  if (n > 60000) n = 60000;
  long p = npos++; int alt = 0;
  if (p < MAXCH) { R->ch[p].n = n; R->ch[p].kind = kind; } else R->over = 1;
  if (T && tdev < T->ndev && T->d[tdev].pos == p) {
    alt = T->d[tdev].alt; tdev++;
    if (alt >= n) { finish(2, "INTERNAL replay divergence"); }
    vlog("choice %ld %s(%s) = %d of %d", p, kname[kind], what, alt, n);
  } else if (kind == K_PICK || kind == K_ENV || kind == K_IO) vlog("choice %ld %s(%s) = 0 of %d", p, kname[kind], what, n);
  return alt;
}

/* ------------------------------------------------------------------ scheduler */
static int active(fiber *f) {
  switch (f->state) {
    case F_RUN: return 1;
    case F_SPIN: return f->spin_epoch != repoch[f->rank];
    case F_BLOCK: return f->cond(f->carg);
  }
  return 0;
}
static void to_sched(void) { fiber *f = cur; sim_switch(&f->sp, sched_sp); }
static void fiber_main(void) {
  fiber *f = cur; f->ret = f->fn(f->arg); f->state = F_DONE; progress(); if (f->is_main && participant[f->rank]) mains_done++; to_sched(); abort();
}
static fiber *new_fiber(int rank, void *(*fn)(void *), void *arg) {
  int i; for (i = 0; i < nF; i++) if (F[i].state == F_FREE) break;
  if (i == nF) { if (nF == MAXF) die("too many fibers"); nF++; }
  fiber *f = &F[i]; char *st = f->stk; memset(f, 0, sizeof *f); f->id = i; f->rank = rank; f->fn = fn; f->arg = arg; f->state = F_RUN;
  if (!st) { st = mmap(0, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(st, 4096, PROT_NONE); }
  rank_nf[rank]++; f->stk = st; f->h = mix(rank + 1, i + 77);
  uintptr_t top = (uintptr_t)(st + STACKSZ - 64) & ~63ul; void **s = (void **)top;
  *--s = 0; *--s = (void *)fiber_main; for (int k = 0; k < 6; k++) *--s = 0; f->sp = s; return f;
}
/* the fiber that runs next; returns NULL at the end of a phase */
static int phase_end;
static fiber *pick_next(void) {
  fiber *c[MAXF]; int n = 0;
  if (begun && expected && mains_done >= expected) { phase_end = 2; return 0; }
  int me = cur ? cur->id : 0;
  if (cur && cur->state == F_RUN) { if (consec < fair_bound) c[n++] = cur; }
  for (int k = 1; k < nF; k++) { fiber *f = &F[(me + k) % nF]; if (active(f)) c[n++] = f; }
  if (cur && cur->state == F_RUN && consec >= fair_bound) { c[n++] = cur; consec = 0; }
  if (!cur) { n = 0; for (int k = 0; k < nF; k++) if (active(&F[k])) c[n++] = &F[k]; }
  if (n) {
    int r = choose(n, K_SCHED, cur && cur->what ? cur->what : "run");
    if (r) vlog("switch to f%d instead of f%d", c[r]->id, c[0]->id);
    return c[r];
  }
  /* nobody can make progress: let the pollers poll again, in turn */
  int sp = 0; for (int k = 0; k < nF; k++) if (F[k].state == F_SPIN) sp++;
  if (!exploring && begun == 0 && arrived && arrived >= expected && idle > 3 * sp) { phase_end = 1; return 0; }
  idle++;
  if (!sp || idle > 20000L * sp) {
    if (!exploring && begun == 0 && arrived >= expected && arrived) { phase_end = 1; return 0; }
    char b[900]; int o = snprintf(b, sizeof b, "deadlock: no rank can make progress:"), mis = 0;
    for (int k = 0; k < nF && o < 800; k++) if (F[k].state == F_SPIN || F[k].state == F_BLOCK) { o += snprintf(b + o, sizeof b - o, " r%d %s", F[k].rank, F[k].what ? F[k].what : "?"); mis++; }
    fail("%s", b);
  }
  for (int k = 1; k <= nF; k++) { fiber *f = &F[(rr + k) % nF]; if (f->state == F_SPIN) { rr = f->id; return f; } }
  return 0;
}
static int run_phase(void) {
  phase_end = 0;
  for (;;) {
    fiber *prev = cur; fiber *f = pick_next();
    if (!f) return phase_end;
    if (f == prev) consec++; else consec = 0;
    if (++nsteps > max_steps) fail("livelock: more than %ld scheduling steps", max_steps);
    cur = f; f->state = F_RUN; sim_switch(&sched_sp, f->sp);
  }
}
static void sched_point(const char *what) {
  if (!cur) return; if (cur->atomic_depth) return;
  clk++; cur->what = what; cur->state = F_RUN; if (rank_nf[cur->rank] > 1) repoch[cur->rank]++;
  /* fast path: nothing to choose */
  if (!exploring && consec < fair_bound && nsteps < max_steps) { consec++; nsteps++; return; }
  state_point();
  to_sched();
}
static void spin_yield(const char *what) { clk++; cur->what = what; cur->state = F_SPIN; cur->spin_epoch = repoch[cur->rank]; to_sched(); }
static void block_on(int (*cond)(void *), void *arg, const char *what) {
  while (!cond(arg)) { cur->what = what; cur->state = F_BLOCK; cur->cond = cond; cur->carg = arg; to_sched(); }
  cur->state = F_RUN;
}
static int R_(void) { return cur->rank; }

/* ------------------------------------------------------------------ harness API */
int sim_rank(void) { return R_(); }
int sim_np(void) { return NP; }
int sim_node_of(int r) { return nodeof[r]; }
const char *sim_scenario(void) { return SCEN; }
const char *sim_opt(const char *k) { for (int i = 0; i < nopt; i++) if (!strcmp(optk[i], k)) return optv[i]; return 0; }
int sim_optint(const char *k, int d) { const char *v = sim_opt(k); return v ? atoi(v) : d; }
void sim_ranks_expected(int n) { expected = n; }
void sim_set_cases(long n) { ncases = n; }
static int c_begun(void *a) { return begun >= (int)(intptr_t)a; }
long sim_begin(void) { arrived++; participant[R_()] = 1; progress(); block_on(c_begun, (void *)(intptr_t)1, "sim_begin"); return curcase; }
static int bar_n, bar_gen; static int c_bar(void *a) { return bar_gen != (int)(intptr_t)a; }
static void obarrier(int quiet) { int g = bar_gen; if (++bar_n == expected) { bar_n = 0; bar_gen++; if (quiet) exploring = quiet > 1; progress(); } else block_on(c_bar, (void *)(intptr_t)g, "sim_barrier"); }
void sim_barrier(void) { ev(11); obarrier(0); }
void sim_quiet(void) { obarrier(1); }
void sim_resume(void) { obarrier(2); }
void sim_fail(const char *fmt, ...) { char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); fail("%s", b); abort(); }
void sim_expect_abort(void) { expect_abort = 1; }
void sim_never(const char *w) { expect_abort = 0; fail("%s", w); }
void *sim_shared(void) { return oracle; }
long sim_now(void) { return ++clk; }
int sim_choose(int n, const char *w) { sched_point(w); return choose(n, K_ENV, w); }
int sim_pick(int n) { int r = choose(n, K_PICK, "pick"); ev(mix(r, 4242)); return r; }
void sim_yield(void) { ev(12); sched_point("yield"); }
struct wge { volatile long *p; long v; }; static int c_wge(void *a) { struct wge *w = a; return *w->p >= w->v; }
void sim_wait_ge(volatile long *p, long v) { struct wge w = { p, v }; block_on(c_wge, &w, "sim_wait"); }
void sim_note(const char *fmt, ...) { if (!verbose) return; char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); vlog("note %s", b); }
void sim_count(int w, long n) { idle = 0; if (in_child) __sync_fetch_and_add(&S->counters[w & 15], n); }
void sim_progress(void) { progress(); }
void sim_state(unsigned long h) { idle = 0; if (in_child && hs_insert(hset, mix(h, mix(curcase, 0x5747)))) __sync_fetch_and_add(&S->states, 1); }

/* ------------------------------------------------------------------ datatypes */
typedef struct { long off, len; } seg;
typedef struct { int used; int base; long size, extent; int ns; seg *s; } dtype;
static dtype D[4096]; static int nD;
static long bsize[] = { 0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 8, 8, 16, 16, 8, 16 };
static void dt_init(void) { for (int i = 1; i < SIM_TLAST; i++) { D[i].used = 1; D[i].base = i; D[i].size = D[i].extent = bsize[i]; D[i].ns = 1; D[i].s = malloc(sizeof(seg)); D[i].s[0] = (seg){ 0, bsize[i] }; } nD = SIM_TLAST; }
static dtype *DT(int t) { if (t <= 0 || t >= nD || !D[t].used) fail("MPI: invalid datatype"); return &D[t]; }
static int dt_new(void) { int i; for (i = SIM_TLAST; i < nD; i++) if (!D[i].used) break; if (i == nD) { if (nD == 4096) fail("MPI: datatype leak: more than 4000 live datatypes"); nD++; } memset(&D[i], 0, sizeof D[i]); D[i].used = 1; return i; }
static void dt_add(dtype *d, long off, dtype *o) { for (int k = 0; k < o->ns; k++) { long a = off + o->s[k].off, l = o->s[k].len; if (d->ns && d->s[d->ns - 1].off + d->s[d->ns - 1].len == a && 0) d->s[d->ns - 1].len += l; else { if ((d->ns & (d->ns - 1)) == 0) d->s = realloc(d->s, sizeof(seg) * (d->ns ? 2 * d->ns : 1)); d->s[d->ns++] = (seg){ a, l }; } } d->size += o->size; if (!d->base) d->base = o->base; else if (d->base != o->base) d->base = -1; }
static void dt_fin(dtype *d) { long hi = 0; for (int k = 0; k < d->ns; k++) if (d->s[k].off + d->s[k].len > hi) hi = d->s[k].off + d->s[k].len; d->extent = hi; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { if (n < 0) fail("MPI_Type_contiguous: negative count"); int i = dt_new(); dtype *b = DT(t), *d = &D[i]; for (int k = 0; k < n; k++) dt_add(d, k * b->extent, b); if (!n) d->base = b->base; d->extent = n * b->extent; *o = i; return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) { int i = dt_new(); dtype *b = DT(t), *d = &D[i]; for (int k = 0; k < n; k++) for (int j = 0; j < bl; j++) dt_add(d, k * st + j * b->extent, b); dt_fin(d); *o = i; return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_create_hvector(n, bl, st * DT(t)->extent, t, o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *di, MPI_Datatype t, MPI_Datatype *o) { int i = dt_new(); dtype *b = DT(t), *d = &D[i]; for (int k = 0; k < n; k++) for (int j = 0; j < bl[k]; j++) dt_add(d, di[k] + j * b->extent, b); dt_fin(d); *o = i; return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *di, MPI_Datatype t, MPI_Datatype *o) { int i = dt_new(); dtype *b = DT(t), *d = &D[i]; for (int k = 0; k < n; k++) for (int j = 0; j < bl[k]; j++) dt_add(d, (di[k] + j) * b->extent, b); dt_fin(d); *o = i; return 0; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *di, const MPI_Datatype *t, MPI_Datatype *o) { int i = dt_new(); dtype *d = &D[i]; for (int k = 0; k < n; k++) { dtype *b = DT(t[k]); for (int j = 0; j < bl[k]; j++) dt_add(d, di[k] + j * b->extent, b); } dt_fin(d); *o = i; return 0; }
int MPI_Type_struct(int n, int *bl, MPI_Aint *di, MPI_Datatype *t, MPI_Datatype *o) { return MPI_Type_create_struct(n, bl, di, t, o); }
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *st, int order, MPI_Datatype t, MPI_Datatype *o) {
  int i = dt_new(); dtype *b = DT(t), *d = &D[i]; long idx[16] = { 0 }, tot = 1, full = 1; long mul[16];
  if (nd < 1 || nd > 16) fail("MPI_Type_create_subarray: bad ndims %d", nd);
  for (int k = 0; k < nd; k++) { if (sub[k] < 1 || st[k] < 0 || st[k] + sub[k] > sz[k]) fail("MPI_Type_create_subarray: dimension %d: size %d subsize %d start %d", k, sz[k], sub[k], st[k]); tot *= sub[k]; full *= sz[k]; }
  if (order == MPI_ORDER_FORTRAN) { long m = 1; for (int k = 0; k < nd; k++) { mul[k] = m; m *= sz[k]; } } else { long m = 1; for (int k = nd - 1; k >= 0; k--) { mul[k] = m; m *= sz[k]; } }
  for (long q = 0; q < tot; q++) { long off = 0; for (int k = 0; k < nd; k++) off += (idx[k] + st[k]) * mul[k]; dt_add(d, off * b->extent, b);
    if (order == MPI_ORDER_FORTRAN) { for (int k = 0; k < nd; k++) { if (++idx[k] < sub[k]) break; idx[k] = 0; } } else for (int k = nd - 1; k >= 0; k--) { if (++idx[k] < sub[k]) break; idx[k] = 0; } }
  d->extent = full * b->extent; *o = i; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { DT(*t); return 0; }
int MPI_Type_free(MPI_Datatype *t) { dtype *d = DT(*t); if (*t < SIM_TLAST) fail("MPI_Type_free of a basic type"); d->used = 0; free(d->s); d->s = 0; *t = 0; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = DT(t)->size; return 0; }
static long pk_size(int t, int n) { return DT(t)->size * n; }
static void pk(char *dst, const char *src, int t, int n) { dtype *d = DT(t); if (t < SIM_TLAST) { memcpy(dst, src, d->size * n); return; } for (int k = 0; k < n; k++) for (int j = 0; j < d->ns; j++) { memcpy(dst, src + k * d->extent + d->s[j].off, d->s[j].len); dst += d->s[j].len; } }
static long unpk(char *dst, const char *src, long len, int t, int n) { dtype *d = DT(t); long l0 = len; if (t < SIM_TLAST) { long m = d->size * n; if (m > len) m = len; memcpy(dst, src, m); return m; } for (int k = 0; k < n && len > 0; k++) for (int j = 0; j < d->ns && len > 0; j++) { long m = d->s[j].len; if (m > len) m = len; memcpy(dst + k * d->extent + d->s[j].off, src, m); src += m; len -= m; } return l0 - len; }
static void red1(char *a, const char *b, int t, int op) { /* a = a op b */
  if (op == MPI_REPLACE) { memcpy(a, b, bsize[t]); return; } if (op == MPI_NO_OP) return;
#define NUM(T) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); switch (op) { case MPI_SUM: x = x + y; break; case MPI_PROD: x = x * y; break; case MPI_MAX: if (y > x) x = y; break; case MPI_MIN: if (y < x) x = y; break; case MPI_LAND: x = x && y; break; case MPI_LOR: x = x || y; break; default: goto bits; } memcpy(a, &x, sizeof x); return; }
#define CPX(T) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); if (op == MPI_SUM) x += y; else if (op == MPI_PROD) x *= y; else fail("MPI: bad complex op"); memcpy(a, &x, sizeof x); return; }
#define LOC(T) { struct { T v; int i; } x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); if (op == MPI_MAXLOC ? (y.v > x.v || (y.v == x.v && y.i < x.i)) : (y.v < x.v || (y.v == x.v && y.i < x.i))) memcpy(a, b, sizeof x); return; }
  switch (t) { case MPI_CHAR: case MPI_SIGNED_CHAR: NUM(signed char) case MPI_BYTE: case MPI_UNSIGNED_CHAR: NUM(unsigned char) case MPI_SHORT: NUM(short) case MPI_UNSIGNED_SHORT: NUM(unsigned short) case MPI_INT: NUM(int) case MPI_UNSIGNED: NUM(unsigned) case MPI_LONG: case MPI_LONG_LONG: NUM(long) case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: NUM(unsigned long)
    case MPI_FLOAT: NUM(float) case MPI_DOUBLE: NUM(double) case MPI_LONG_DOUBLE: NUM(long double) case MPI_C_FLOAT_COMPLEX: CPX(float complex) case MPI_C_DOUBLE_COMPLEX: CPX(double complex)
    case MPI_2INT: LOC(int) case MPI_FLOAT_INT: LOC(float) case MPI_DOUBLE_INT: LOC(double) case MPI_LONG_INT: LOC(long) }
bits: if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) { for (int i = 0; i < bsize[t]; i++) a[i] = op == MPI_BAND ? a[i] & b[i] : op == MPI_BOR ? a[i] | b[i] : a[i] ^ b[i]; return; }
  fail("MPI: bad op %d on type %d", op, t);
}

/* ------------------------------------------------------------------ groups and communicators */
typedef struct { int used, n, r[MAXR]; } grp;
typedef struct { int used, inter, n, r[MAXR], n2, r2[MAXR]; long seq[MAXR]; int freed[MAXR]; } comm;
static grp G[8192]; static int nG = 2; static comm C[4096]; static int nC = 3;
static comm *CM(int c) { if (c == MPI_COMM_SELF) { static comm self[MAXR]; comm *s = &self[R_()]; s->used = 1; s->n = 1; s->r[0] = R_(); return s; } if (c <= 0 || c >= nC || !C[c].used) fail("MPI: invalid communicator"); return &C[c]; }
static int in_list(int n, int *r, int w) { for (int i = 0; i < n; i++) if (r[i] == w) return i; return -1; }
static comm *CMC(int c) { comm *m = CM(c); int i = in_list(m->n, m->r, R_()); if (c != MPI_COMM_SELF && (i < 0 && (!m->inter || in_list(m->n2, m->r2, R_()) < 0))) fail("MPI: rank %d uses a communicator it does not belong to", R_()); if (c != MPI_COMM_SELF && m->freed[R_()]) fail("MPI: rank %d uses a freed communicator", R_()); return m; }
static int new_comm(int n, int *r) { if (nC == 4096) fail("MPI: too many communicators"); int i = nC++; memset(&C[i], 0, sizeof C[i]); C[i].used = 1; C[i].n = n; memcpy(C[i].r, r, n * sizeof(int)); return i; }
static int new_grp(int n, int *r) { int i; if (!n) return MPI_GROUP_EMPTY; for (i = 2; i < nG; i++) if (!G[i].used) break; if (i == nG) { if (nG == 8192) fail("MPI: group leak: more than 8000 live groups"); nG++; } G[i].used = 1; G[i].n = n; memcpy(G[i].r, r, n * sizeof(int)); return i; }
static grp *GP(int g) { static grp e; if (g == MPI_GROUP_EMPTY) return &e; if (g <= 0 || g >= nG || !G[g].used) fail("MPI: invalid group"); return &G[g]; }
int MPI_Comm_rank(MPI_Comm c, int *o) { comm *m = CMC(c); int i = in_list(m->n, m->r, R_()); if (i < 0) i = in_list(m->n2, m->r2, R_()); *o = i; return 0; }
int MPI_Comm_size(MPI_Comm c, int *o) { comm *m = CMC(c); *o = m->inter && in_list(m->n, m->r, R_()) < 0 ? m->n2 : m->n; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { comm *m = CMC(c); *g = m->inter && in_list(m->n, m->r, R_()) < 0 ? new_grp(m->n2, m->r2) : new_grp(m->n, m->r); return 0; }
int MPI_Group_rank(MPI_Group g, int *o) { grp *p = GP(g); int i = in_list(p->n, p->r, R_()); *o = i < 0 ? MPI_UNDEFINED : i; return 0; }
int MPI_Group_size(MPI_Group g, int *o) { *o = GP(g)->n; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { grp *p = GP(g); int t[MAXR]; if (n > p->n) fail("MPI_Group_incl: too many ranks"); for (int i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= p->n) fail("MPI_Group_incl: bad rank %d", r[i]); t[i] = p->r[r[i]]; for (int j = 0; j < i; j++) if (t[j] == t[i]) fail("MPI_Group_incl: duplicate rank"); } *o = new_grp(n, t); return 0; }
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) { grp *p = GP(g); int t[MAXR], m = 0; for (int i = 0; i < p->n; i++) { int x = 0; for (int j = 0; j < n; j++) if (r[j] == i) x = 1; if (!x) t[m++] = p->r[i]; } *o = new_grp(m, t); return 0; }
int MPI_Group_free(MPI_Group *g) { if (*g != MPI_GROUP_EMPTY) { GP(*g)->used = 0; } *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) { grp *p = GP(a), *q = GP(b); for (int i = 0; i < n; i++) { if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; } if (ra[i] < 0 || ra[i] >= p->n) fail("MPI_Group_translate_ranks: bad rank %d", ra[i]); int k = in_list(q->n, q->r, p->r[ra[i]]); rb[i] = k < 0 ? MPI_UNDEFINED : k; } return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? 0 : 1; return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return c; }

/* ------------------------------------------------------------------ collectives */
enum { O_BARRIER = 1, O_BCAST, O_ALLREDUCE, O_REDUCE, O_ALLGATHER, O_CREATE, O_DUP, O_SPLIT, O_ICREATE, O_IMERGE, O_FREE, O_WIN, O_WINFREE, O_FENCE };
static const char *oname[] = { "?", "MPI_Barrier", "MPI_Bcast", "MPI_Allreduce", "MPI_Reduce", "MPI_Allgather", "MPI_Comm_create", "MPI_Comm_dup", "MPI_Comm_split", "MPI_Intercomm_create", "MPI_Intercomm_merge", "MPI_Comm_free", "MPI_Win_create", "MPI_Win_free", "MPI_Win_fence" };
typedef struct coll { struct coll *next; int c, op, n, narr, nleft; long seq; char arr[MAXR]; char *data[MAXR]; long len[MAXR], arg[MAXR][4]; uint64_t h[MAXR]; int res[MAXR]; int resdone; struct coll *peer; } coll;
static coll *CL;
static coll *coll_enter(int c, int op, const void *data, long len, long a0, long a1, long a2, int *me) {
  comm *m = CMC(c); sched_point(oname[op]);
  int n = m->inter ? m->n + m->n2 : m->n; int i = in_list(m->n, m->r, R_()); if (i < 0) i = m->n + in_list(m->n2, m->r2, R_());
  long q = m->seq[R_()]++; coll *s; for (s = CL; s; s = s->next) if (s->c == c && s->seq == q) break;
  if (!s) { s = calloc(1, sizeof *s); s->c = c; s->seq = q; s->op = op; s->n = n; s->next = CL; CL = s; }
  if (s->op != op) fail("MPI: collective mismatch: rank %d calls %s, others call %s", R_(), oname[op], oname[s->op]);
  s->arr[i] = 1; s->narr++; s->data[i] = malloc(len + 1); if (len) memcpy(s->data[i], data, len); s->len[i] = len; s->arg[i][0] = a0; s->arg[i][1] = a1; s->arg[i][2] = a2;
  vlog("%s comm %d", oname[op], c);
  ev(mix(op, c * 1000 + q)); s->h[i] = cur->h; *me = i; progress(); return s;
}
static int c_full(void *a) { coll *s = a; return s->narr == s->n; }
struct crt { coll *s; int root; }; static int c_root(void *a) { struct crt *x = a; return x->s->arr[x->root]; }
static void coll_exit(coll *s) { uint64_t x = 0; for (int i = 0; i < s->n; i++) if (s->arr[i]) x = mix(x, s->h[i]); if (s->narr == s->n) ev(x); if (++s->nleft == s->n) { coll **p = &CL; while (*p != s) p = &(*p)->next; *p = s->next; if (s->op != O_ICREATE) { for (int i = 0; i < s->n; i++) free(s->data[i]); free(s); } } }
static void coll_wait(coll *s) { block_on(c_full, s, oname[s->op]); }
int MPI_Barrier(MPI_Comm c) { int me; if (c == MPI_COMM_SELF) return 0; coll *s = coll_enter(c, O_BARRIER, 0, 0, 0, 0, 0, &me); coll_wait(s); coll_exit(s); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { int me; if (c == MPI_COMM_SELF) return 0; comm *m = CMC(c); if (root < 0 || root >= m->n) fail("MPI_Bcast: bad root %d", root); long len = pk_size(t, n); int am = m->r[root] == R_(); char *tmp = malloc(len + 1); if (am) pk(tmp, b, t, n);
  coll *s = coll_enter(c, O_BCAST, tmp, am ? len : 0, root, len, 0, &me); free(tmp);
  if (!am) { struct crt x = { s, root }; block_on(c_root, &x, "MPI_Bcast"); if (s->arg[root][0] != root || s->arg[root][1] != len) fail("MPI_Bcast: mismatched arguments"); unpk(b, s->data[root], len, t, n); ev(s->h[root]); }
  coll_exit(s); return 0; }
static int allred(int o, const void *sb, void *rb, int n, int t, int op, int root, int c) { int me; if (t >= SIM_TLAST) fail("MPI_Allreduce: derived type"); long len = pk_size(t, n); const char *src = sb == MPI_IN_PLACE ? rb : sb; if (c == MPI_COMM_SELF) { if (src != rb) memcpy(rb, src, len); return 0; }
  if (sb != MPI_IN_PLACE && rb && (char *)sb < (char *)rb + len && (char *)rb < (char *)sb + len && n > 0 && (o == O_ALLREDUCE)) fail("MPI_Allreduce: aliased buffers");
  coll *s = coll_enter(c, o, src, len, op, t, root, &me);
  if (o == O_ALLREDUCE || me == root) { coll_wait(s); char *acc = malloc(len + 1); memcpy(acc, s->data[0], len); for (int i = 0; i < s->n; i++) { if (s->len[i] != len || s->arg[i][0] != op || s->arg[i][1] != t || s->arg[i][2] != root) fail("%s: mismatched arguments", oname[o]); if (i) for (int k = 0; k < n; k++) red1(acc + k * bsize[t], s->data[i] + k * bsize[t], t, op); } memcpy(rb, acc, len); free(acc); }
  coll_exit(s); return 0; }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return allred(O_ALLREDUCE, a, b, n, t, op, 0, c); }
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return allred(O_REDUCE, a, b, n, t, op, root, c); }
int MPI_Allgather(const void *a, int n, MPI_Datatype t, void *b, int n2, MPI_Datatype t2, MPI_Comm c) { int me; long bl = pk_size(t2, n2); if (c == MPI_COMM_SELF) { if (a != MPI_IN_PLACE) { char *x = malloc(bl + 1); pk(x, a, t, n); unpk(b, x, bl, t2, n2); free(x); } return 0; }
  comm *m = CMC(c); int i = in_list(m->n, m->r, R_()); char *tmp = malloc(bl + 1); if (a == MPI_IN_PLACE) pk(tmp, (char *)b + i * n2 * DT(t2)->extent, t2, n2); else { if (pk_size(t, n) != bl) fail("MPI_Allgather: size mismatch"); pk(tmp, a, t, n); }
  coll *s = coll_enter(c, O_ALLGATHER, tmp, bl, bl, 0, 0, &me); free(tmp); coll_wait(s);
  for (int k = 0; k < s->n; k++) { if (s->len[k] != bl) fail("MPI_Allgather: size mismatch between ranks"); unpk((char *)b + k * n2 * DT(t2)->extent, s->data[k], bl, t2, n2); }
  coll_exit(s); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { int me; if (c == MPI_COMM_SELF) { int r = R_(); *o = new_comm(1, &r); return 0; } coll *s = coll_enter(c, O_DUP, 0, 0, 0, 0, 0, &me); coll_wait(s); if (!s->resdone) { s->res[0] = new_comm(C[c].n, C[c].r); s->resdone = 1; } *o = s->res[0]; coll_exit(s); return 0; }
int MPI_Comm_free(MPI_Comm *c) { int me; comm *m = CMC(*c); if (*c < 3) fail("MPI_Comm_free of a predefined communicator"); coll *s = coll_enter(*c, O_FREE, 0, 0, 0, 0, 0, &me); m->freed[R_()] = 1; coll_exit(s); *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) { int me; grp *p = GP(g); coll *s = coll_enter(c, O_CREATE, p->r, p->n * sizeof(int), p->n, 0, 0, &me); coll_wait(s);
  if (!s->resdone) { s->resdone = 1; int *done = calloc(s->n, sizeof(int)); for (int i = 0; i < s->n; i++) { s->res[i] = 0; int ni = s->arg[i][0]; int *ri = (int *)s->data[i]; if (done[i]) continue; if (in_list(ni, ri, C[c].r[i]) < 0) continue; int id = new_comm(ni, ri); for (int k = 0; k < ni; k++) { int j = in_list(C[c].n, C[c].r, ri[k]); if (j < 0) fail("MPI_Comm_create: group is not a subset"); if (s->arg[j][0] != ni || memcmp(s->data[j], ri, ni * sizeof(int))) fail("MPI_Comm_create: ranks pass different groups"); s->res[j] = id; done[j] = 1; } } free(done); for (int i = 0; i < s->n; i++) if (!s->res[i]) s->res[i] = -1; }
  *o = s->res[me] < 0 ? MPI_COMM_NULL : s->res[me]; coll_exit(s); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { int me; coll *s = coll_enter(c, O_SPLIT, 0, 0, color, key, 0, &me); coll_wait(s);
  if (!s->resdone) { s->resdone = 1; char done[MAXR] = { 0 }; for (int i = 0; i < s->n; i++) { if (done[i]) continue; if (s->arg[i][0] == MPI_UNDEFINED) { s->res[i] = 0; continue; } int id[MAXR], n = 0; for (int j = 0; j < s->n; j++) if (s->arg[j][0] == s->arg[i][0]) { int k = n++; while (k > 0 && s->arg[id[k - 1]][1] > s->arg[j][1]) { id[k] = id[k - 1]; k--; } id[k] = j; } int r[MAXR]; for (int k = 0; k < n; k++) r[k] = C[c].r[id[k]]; int nc = new_comm(n, r); for (int k = 0; k < n; k++) { s->res[id[k]] = nc; done[id[k]] = 1; } } }
  *o = s->res[me]; coll_exit(s); return 0; }
static struct { int used, peer, tag, leader, remote; coll *s; int c; int ic; } IC[256]; static int nIC;
struct icw { coll *s; }; static int c_ic(void *a) { coll *s = a; return s->narr == s->n && s->peer && s->peer->narr == s->peer->n; }
int MPI_Intercomm_create(MPI_Comm lc, int ll, MPI_Comm pc, int rl, int tag, MPI_Comm *o) { int me; comm *m = CMC(lc);
  coll *s;
  if (lc == MPI_COMM_SELF) { /* private slot */ s = calloc(1, sizeof *s); s->c = -R_() - 10; s->seq = -1; s->op = O_ICREATE; s->n = 1; s->arr[0] = 1; s->narr = 1; s->data[0] = malloc(1); s->next = CL; CL = s; me = 0; sched_point("MPI_Intercomm_create"); ev(O_ICREATE); s->h[0] = cur->h; progress(); }
  else s = coll_enter(lc, O_ICREATE, 0, 0, ll, tag, 0, &me);
  if (me == ll) { comm *p = CMC(pc); int wl = R_(), wr = p->r[rl]; int k; s->arg[0][3] = lc;
    for (k = 0; k < nIC; k++) if (IC[k].used && IC[k].peer == pc && IC[k].tag == tag && IC[k].leader == wr && IC[k].remote == wl) break;
    if (k < nIC) { s->peer = IC[k].s; IC[k].s->peer = s; IC[k].used = 0; int id = new_comm(m->n, m->r); C[id].inter = 1; comm *q = IC[k].c == MPI_COMM_SELF ? 0 : &C[IC[k].c]; if (q) { C[id].n2 = q->n; memcpy(C[id].r2, q->r, sizeof q->r); } else { C[id].n2 = 1; C[id].r2[0] = wr; } s->res[0] = IC[k].s->res[0] = id; }
    else { for (k = 0; k < nIC; k++) if (!IC[k].used) break; if (k == nIC) { if (nIC == 256) fail("sim: IC table"); nIC++; } IC[k].used = 1; IC[k].peer = pc; IC[k].tag = tag; IC[k].leader = wl; IC[k].remote = wr; IC[k].s = s; IC[k].c = lc; }
    progress(); }
  block_on(c_ic, s, "MPI_Intercomm_create"); uint64_t x = 0; for (int i = 0; i < s->peer->n; i++) x = mix(x, s->peer->h[i]); ev(x); *o = s->res[0];
  coll_exit(s); /* peer memory: leaked on purpose, see below */ return 0; }
int MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *o) { int me; comm *m = CMC(c); if (!m->inter) fail("MPI_Intercomm_merge: not an intercommunicator"); coll *s = coll_enter(c, O_IMERGE, 0, 0, high, 0, 0, &me); coll_wait(s);
  if (!s->resdone) { s->resdone = 1; int h1 = s->arg[0][0], h2 = s->arg[m->n][0]; int r[MAXR], n = 0; int first = (h1 && !h2) ? 1 : 0; for (int k = 0; k < 2; k++) { if ((k ^ first) == 0) for (int i = 0; i < m->n; i++) r[n++] = m->r[i]; else for (int i = 0; i < m->n2; i++) r[n++] = m->r2[i]; } s->res[0] = new_comm(n, r); }
  *o = s->res[0]; coll_exit(s); return 0; }

/* ------------------------------------------------------------------ point to point */
typedef struct msg { struct msg *next; int src, dst, c, tag; long len; char *data; const void *ubuf; int ut, un; int req; uint64_t h; long id; } msg;
typedef struct { int used, kind, rank, done; msg *m; void *buf; int n, t, src, tag, c; MPI_Status st; struct rop *op; int posted; } req;
static req *Q[65536]; static int nQ = 1; static msg *MQ, **MQt = &MQ; static long msgid; static long postno;
static int new_req(void) { int i; for (i = 1; i < nQ; i++) if (!Q[i]->used) break; if (i == nQ) { if (nQ == 65536) fail("MPI: request leak"); Q[nQ++] = calloc(1, sizeof(req)); } memset(Q[i], 0, sizeof(req)); Q[i]->used = 1; Q[i]->rank = R_(); return i; }
static int peer_world(int c, int r) { comm *m = CMC(c); int inA = in_list(m->n, m->r, R_()) >= 0; int n = m->inter && inA ? m->n2 : m->n; int *l = m->inter && inA ? m->r2 : m->r; if (r < 0 || r >= n) fail("MPI: invalid rank %d in communicator of size %d", r, n); return l[r]; }
static int comm_rank_of(int c, int dst, int w) { (void)dst; comm *m = CM(c); int i = in_list(m->n, m->r, w); if (i < 0) i = in_list(m->n2, m->r2, w); return i; }
static int do_send(const void *b, int n, int t, int dst, int tag, int c, int *rq, const char *nm) {
  if (n < 0) fail("%s: negative count", nm);
  int w = peer_world(c, dst); sched_point(nm);
  msg *m = calloc(1, sizeof *m); m->src = R_(); m->dst = w; m->c = c == MPI_COMM_SELF ? -R_() - 1 : c; m->tag = tag; m->len = pk_size(t, n); m->id = ++msgid;
  if (rank_exited[w]) fail("MPI: rank %d sends to rank %d, which has exited", R_(), w);
  int r = 0; if (rq) { r = new_req(); Q[r]->kind = 1; }
  int eager = m->len <= eager_lim; if (!rq && w == R_()) eager = 1;
  if (eager) { m->data = malloc(m->len + 1); pk(m->data, b, t, n); if (rq) Q[r]->done = 1; }
  else { m->ubuf = b; m->ut = t; m->un = n; if (rq) { m->req = r; } 
    if (t >= SIM_TLAST) { /* the datatype may be freed before completion: keep a private copy */ int i = dt_new(); int u = D[i].used; D[i] = D[t]; D[i].used = u; D[i].s = malloc(sizeof(seg) * D[t].ns); memcpy(D[i].s, D[t].s, sizeof(seg) * D[t].ns); m->ut = i; } }
  ev(mix(1, mix(w, mix(tag, m->len)))); m->h = cur->h; *MQt = m; MQt = &m->next;
  vlog("%s #%ld to %d tag %d len %ld comm %d%s", nm, m->id, w, tag, m->len, c, eager ? "" : " (rendezvous)");
  progress_rank(w); if (rq) *rq = r; else if (!eager) { int q = new_req(); Q[q]->kind = 1; m->req = q; MPI_Request z = q; MPI_Wait(&z, 0); }
  return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { if (dst == MPI_PROC_NULL) { *r = 0; return 0; } return do_send(b, n, t, dst, tag, c, r, "MPI_Isend"); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { if (dst == MPI_PROC_NULL) return 0; return do_send(b, n, t, dst, tag, c, 0, "MPI_Send"); }
/* candidates: first matching message of every source, in arrival order */
static int cands(int rank, int c, int src, int tag, msg **out) { int n = 0; int cc = c == MPI_COMM_SELF ? -rank - 1 : c; int ws = src == MPI_ANY_SOURCE ? -1 : peer_world(c, src);
  for (msg *m = MQ; m; m = m->next) { if (m->dst != rank || m->c != cc || (ws >= 0 && m->src != ws) || (tag != MPI_ANY_TAG && m->tag != tag)) continue; int dup = 0; for (int i = 0; i < n; i++) if (out[i]->src == m->src) dup = 1; if (!dup && n < MAXR) out[n++] = m; }
  return n; }
static void deliver(msg *m, void *b, int n, int t, int c, MPI_Status *st) {
  long cap = pk_size(t, n); if (m->len > cap) fail("MPI: message truncated: rank %d receives %ld bytes from rank %d (tag %d) into a buffer of %ld", m->dst, m->len, m->src, m->tag, cap);
  if (m->data) { unpk(b, m->data, m->len, t, n); free(m->data); } else { char *tmp = malloc(m->len + 1); pk(tmp, m->ubuf, m->ut, m->un); unpk(b, tmp, m->len, t, n); free(tmp); if (m->ut >= SIM_TLAST) { D[m->ut].used = 0; free(D[m->ut].s); D[m->ut].s = 0; } if (m->req) Q[m->req]->done = 1; }
  if (st) { st->MPI_SOURCE = comm_rank_of(c, m->dst, m->src); st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->count_ = m->len; }
  ev(mix(2, m->h)); vlog("received #%ld from %d tag %d len %ld", m->id, m->src, m->tag, m->len);
  msg **p = &MQ; while (*p != m) p = &(*p)->next; *p = m->next; if (MQt == &m->next) MQt = p; progress_rank(m->src); progress_rank(m->dst); free(m); }
static int pick_msg(int n, msg **c) { int r = choose(n, K_MATCH, "message"); return r; }
static int posted_n[MAXR];
static void progress_posted(int rank) { if (!posted_n[rank]) return;
  int again = 1; while (again) { again = 0; int best = 0; for (int i = 1; i < nQ; i++) if (Q[i]->used && Q[i]->kind == 2 && Q[i]->rank == rank && !Q[i]->done) { msg *c[MAXR]; if (cands(rank, Q[i]->c, Q[i]->src, Q[i]->tag, c) && (!best || Q[i]->posted < Q[best]->posted)) best = i; }
    if (best) { msg *c[MAXR]; req *q = Q[best]; int n = cands(rank, q->c, q->src, q->tag, c); int k = n > 1 ? pick_msg(n, c) : 0; deliver(c[k], q->buf, q->n, q->t, q->c, &q->st); q->done = 1; posted_n[rank]--; again = 1; } } }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { if (src == MPI_PROC_NULL) { *r = 0; return 0; } if (src != MPI_ANY_SOURCE) peer_world(c, src); int i = new_req(); req *q = Q[i]; q->kind = 2; q->buf = b; q->n = n; q->t = t; q->src = src; q->tag = tag; q->c = c; q->posted = ++postno; posted_n[R_()]++; ev(mix(3, mix(src, tag))); vlog("MPI_Irecv from %d tag %d", src, tag); *r = i; return 0; }
struct rw { int rank, c, src, tag; }; static int c_recv(void *a) { struct rw *w = a; msg *c[MAXR]; fiber *o = cur; fiber tmp; tmp.rank = w->rank; cur = &tmp; int n = cands(w->rank, w->c, w->src, w->tag, c); cur = o; return n > 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) { if (src == MPI_PROC_NULL) return 0; sched_point("MPI_Recv"); struct rw w = { R_(), c, src, tag }; msg *m[MAXR]; int k;
  for (;;) { progress_posted(R_()); k = cands(R_(), c, src, tag, m); if (k) break; block_on(c_recv, &w, "MPI_Recv"); }
  deliver(m[k > 1 ? pick_msg(k, m) : 0], b, n, t, c, st); return 0; }
static int hidden[MAXF];
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) { if (src == MPI_PROC_NULL) { *flag = 1; return 0; } progress_posted(R_()); msg *m[MAXR]; if (cands(R_(), c, src, tag, m)) sched_point("MPI_Iprobe"); int n = cands(R_(), c, src, tag, m);
  if (!n) { *flag = 0; spin_yield("MPI_Iprobe"); return 0; }
  int hide = (kinds >> K_HIDE & 1) && hidden[cur->id] < 2; int k = choose(n + hide, K_MATCH, "probe");
  if (k == n) { hidden[cur->id]++; *flag = 0; ev(5); return 0; } hidden[cur->id] = 0;
  *flag = 1; if (st) { st->MPI_SOURCE = comm_rank_of(c, R_(), m[k]->src); st->MPI_TAG = m[k]->tag; st->MPI_ERROR = 0; st->count_ = m[k]->len; } ev(mix(4, m[k]->h)); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) { int f = 0; while (!f) MPI_Iprobe(src, tag, c, &f, st); return 0; }
static void rma_complete_req(req *q);
static int c_req(void *a) { req *q = a; if (q->kind == 2 && !q->done) { struct rw w = { q->rank, q->c, q->src, q->tag }; return c_recv(&w); } return q->done; }
static req *RQ(int r) { if (r < 0 || r >= nQ || !Q[r]->used) fail("MPI: invalid request"); if (Q[r]->rank != R_()) fail("MPI: request of another rank"); return Q[r]; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { if (*r == 0) { *flag = 1; return 0; } req *q = RQ(*r); if (q->kind == 3) rma_complete_req(q); progress_posted(R_());
  if (!q->done) { *flag = 0; spin_yield("MPI_Test"); return 0; } sched_point("MPI_Test");
  if ((kinds >> K_TEST & 1) && choose(2, K_TEST, "test")) { *flag = 0; ev(6); return 0; }
  *flag = 1; if (st) *st = q->st; ev(7); q->used = 0; *r = 0; return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) { if (*r == 0) return 0; req *q = RQ(*r); sched_point("MPI_Wait"); if (q->kind == 3) rma_complete_req(q); while (!q->done) { progress_posted(R_()); if (q->done) break; block_on(c_req, q, "MPI_Wait"); } if (st) *st = q->st; ev(8); q->used = 0; *r = 0; return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : 0); return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { long s = DT(t)->size; *n = s == 0 ? 0 : st->count_ % s ? MPI_UNDEFINED : st->count_ / s; return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) { MPI_Request q; MPI_Isend(sb, sn, stt, d, stag, c, &q); MPI_Recv(rb, rn, rt, s, rtag, c, st); return MPI_Wait(&q, 0); }
int sim_pending_msgs(void) { int n = 0; for (msg *m = MQ; m; m = m->next) n++; return n; }
int sim_live_requests(int r) { int n = 0; for (int i = 1; i < nQ; i++) if (Q[i]->used && Q[i]->rank == r) n++; return n; }
long sim_live_comms(int r) { long n = 0; for (int i = 3; i < nC; i++) if (C[i].used && !C[i].freed[r] && (in_list(C[i].n, C[i].r, r) >= 0 || in_list(C[i].n2, C[i].r2, r) >= 0)) n++; return n; }

/* ------------------------------------------------------------------ one-sided */
typedef struct rop { struct rop *next; int w, origin, target, kind, op; long taddr_off; char *data; const void *ob; int on, ot, tn, tt; void *res; long seq; int rq; uint64_t h; } rop; /* kind: 0 put 1 get 2 acc 3 fetch_and_op 4 get_acc 5 cas */
typedef struct { int used, c; char *base[MAXR]; long size[MAXR]; int disp[MAXR]; int own[MAXR]; int locked[MAXR][MAXR]; int excl[MAXR]; int fenced[MAXR]; int nfreed; } win;
static win W[1024]; static int nW = 1; static rop *ROPS; static long ropseq; static uint64_t wmem_h[MAXR];
static win *WN(int w) { if (w <= 0 || w >= nW || !W[w].used) fail("MPI: invalid window"); return &W[w]; }
static int dt_keep(int t) { if (t < SIM_TLAST) return t; int i = dt_new(); D[i] = D[t]; D[i].s = malloc(sizeof(seg) * D[t].ns); memcpy(D[i].s, D[t].s, sizeof(seg) * D[t].ns); return i; }
static void dt_drop(int t) { if (t >= SIM_TLAST) { D[t].used = 0; free(D[t].s); D[t].s = 0; } }
static int winc(void *b, MPI_Aint sz, int du, int c, MPI_Win *o) { int me; long v[3] = { (long)b, sz, du }; coll *s = coll_enter(c, O_WIN, v, sizeof v, 0, 0, 0, &me); coll_wait(s); if (!s->resdone) { s->resdone = 1; if (nW == 1024) fail("MPI: too many windows"); win *w = &W[nW]; memset(w, 0, sizeof *w); w->used = 1; w->c = c; for (int i = 0; i < s->n; i++) { long *x = (long *)s->data[i]; w->base[i] = (char *)x[0]; w->size[i] = x[1]; w->disp[i] = x[2]; w->excl[i] = -1; } s->res[0] = nW++; } *o = s->res[0]; coll_exit(s); return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { void *m = malloc(n ? n : 1); memset(m, 0x5a, n); *(void **)p = m; return 0; }
int MPI_Free_mem(void *p) { free(p); return 0; }
int MPI_Win_create(void *b, MPI_Aint s, int d, MPI_Info i, MPI_Comm c, MPI_Win *w) { return winc(b, s, d, c, w); }
int MPI_Win_allocate(MPI_Aint s, int d, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w) { void *m = 0; if (s) { m = malloc(s); memset(m, 0x5a, s); } *(void **)b = m; winc(m, s, d, c, w); int me; MPI_Comm_rank(c, &me); W[*w].own[me] = 1; return 0; }
static int wrank(int w) { int r; MPI_Comm_rank(W[w].c, &r); return r; }
static void rop_read_origin(rop *r) { if (r->data || r->kind == 1) return; long l = pk_size(r->ot, r->on); r->data = malloc(2 * l + 17); pk(r->data, r->ob, r->ot, r->on); }
static void rop_apply(rop *r) { win *w = &W[r->w]; dtype *d = DT(r->tt); char *t = w->base[r->target] + r->taddr_off; rop_read_origin(r);
  long p = 0; 
  if (r->kind == 1) { long l = pk_size(r->tt, r->tn); char *x = malloc(l + 1); pk(x, t, r->tt, r->tn); unpk((char *)r->res, x, l, r->ot, r->on); free(x); }
  else if (r->kind == 0) unpk(t, r->data, pk_size(r->ot, r->on), r->tt, r->tn);
  else if (r->kind == 5) { memcpy(r->res, t, d->size); if (!memcmp(t, r->data + 8, d->size)) memcpy(t, r->data, d->size); }
  else { if (r->kind == 3) memcpy(r->res, t, d->size); int base = d->base; if (base <= 0) fail("MPI_Accumulate: mixed datatype"); for (int k = 0; k < r->tn; k++) for (int j = 0; j < d->ns; j++) for (long q = 0; q < d->s[j].len; q += bsize[base]) { red1(t + k * d->extent + d->s[j].off + q, r->data + p, base, r->op); p += bsize[base]; } }
  int wr = CM(w->c)->r[r->target]; wmem_h[wr] = mix(wmem_h[wr], r->h);
  if (r->rq) { Q[r->rq]->done = 1; Q[r->rq]->op = 0; }
  rop **pp = &ROPS; while (*pp != r) pp = &(*pp)->next; *pp = r->next; dt_drop(r->tt); dt_drop(r->ot); free(r->data); free(r); progress(); }
static int rma(int w, int kind, const void *ob, void *res, int on, int ot, int target, MPI_Aint disp, int tn, int tt, int op, int *rq, const char *nm) {
  win *x = WN(w); int me = wrank(w); comm *m = CM(x->c); if (target < 0 || target >= m->n) fail("%s: bad target %d", nm, target); sched_point(nm);
  if (!x->locked[me][target] && !x->fenced[me]) fail("%s: no access epoch at target %d", nm, target);
  long off = disp * x->disp[target]; dtype *d = DT(tt); long hi = 0; for (int j = 0; j < d->ns; j++) if (d->s[j].off + d->s[j].len > hi) hi = d->s[j].off + d->s[j].len; if (tn) hi += (tn - 1) * d->extent; else hi = 0;
  if (on && (off < 0 || off + hi > x->size[target])) fail("%s: access outside the window of target %d: offset %ld, %ld bytes, window %ld", nm, target, off, hi, x->size[target]);
  if (pk_size(ot, on) != pk_size(tt, tn)) fail("%s: origin has %ld bytes, target %ld", nm, pk_size(ot, on), pk_size(tt, tn));
  rop *r = calloc(1, sizeof *r); r->w = w; r->origin = R_(); r->target = target; r->kind = kind; r->op = op; r->taddr_off = off; r->ob = ob; r->res = res; r->on = on; r->ot = dt_keep(ot); r->tn = tn; r->tt = dt_keep(tt); r->seq = ++ropseq; ev(mix(20 + kind, mix(target, off))); r->h = cur->h;
  rop **pp = &ROPS; while (*pp) pp = &(*pp)->next; *pp = r;
  if (rq) { *rq = new_req(); Q[*rq]->kind = 3; Q[*rq]->op = r; r->rq = *rq; }
  vlog("%s window %d target %d off %ld bytes %ld", nm, w, target, off, pk_size(ot, on));
  if (rma_mode == 0 || (choose(2, K_RMA, "apply now"))) { /* apply now, and everything accumulate-ordered before it */
    if (kind >= 2) { rop *q, *nx; for (q = ROPS; q && q != r; q = nx) { nx = q->next; if (q->origin == r->origin && q->w == w && q->target == target && q->kind >= 2) rop_apply(q); } }
    rop_apply(r); }
  return 0; }
/* complete all operations of this origin towards target (or all) */
static void rma_flush(int w, int target) { for (;;) { rop *b = 0; int accblk = 0; for (rop *q = ROPS; q; q = q->next) { if (q->w != w || q->origin != R_() || (target >= 0 && q->target != target)) continue; if (rma_mode == 2) { if (q->kind >= 2) { if (!accblk && (!b || 1)) { b = q; } accblk = 1; } else b = q; } else { b = q; break; } } if (!b) break; rop_apply(b); }
  ev(mix(30, w)); uint64_t x = 0; comm *m = CM(W[w].c); for (int i = 0; i < m->n; i++) if (target < 0 || target == i) x = mix(x, wmem_h[m->r[i]]); ev(x); }
static void rma_flush_local(int w, int target) { rop *q, *nx; for (q = ROPS; q; q = nx) { nx = q->next; if (q->w != w || q->origin != R_() || (target >= 0 && q->target != target)) continue; if (q->kind == 1 || q->kind >= 3) { rop_apply(q); nx = ROPS; } else rop_read_origin(q); } ev(mix(31, w)); }
static void rma_complete_req(req *q) { if (q->done || !q->op) { q->done = 1; return; } rop *r = q->op; if (r->kind == 1) rop_apply(r); else { rop_read_origin(r); r->rq = 0; q->op = 0; q->done = 1; } }
int MPI_Put(const void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return rma(w, 0, ob, 0, on, ot, t, d, tn, tt, 0, 0, "MPI_Put"); }
int MPI_Get(void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return rma(w, 1, 0, ob, on, ot, t, d, tn, tt, 0, 0, "MPI_Get"); }
int MPI_Accumulate(const void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w) { return rma(w, 2, ob, 0, on, ot, t, d, tn, tt, op, 0, "MPI_Accumulate"); }
int MPI_Rput(const void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request *r) { return rma(w, 0, ob, 0, on, ot, t, d, tn, tt, 0, r, "MPI_Rput"); }
int MPI_Rget(void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w, MPI_Request *r) { return rma(w, 1, 0, ob, on, ot, t, d, tn, tt, 0, r, "MPI_Rget"); }
int MPI_Raccumulate(const void *ob, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *r) { return rma(w, 2, ob, 0, on, ot, t, d, tn, tt, op, r, "MPI_Raccumulate"); }
int MPI_Fetch_and_op(const void *ob, void *res, MPI_Datatype dt, int t, MPI_Aint d, MPI_Op op, MPI_Win w) { return rma(w, 3, ob, res, 1, dt, t, d, 1, dt, op, 0, "MPI_Fetch_and_op"); }
int MPI_Win_flush(int t, MPI_Win w) { WN(w); sched_point("MPI_Win_flush"); rma_flush(w, t); return 0; }
int MPI_Win_flush_all(MPI_Win w) { WN(w); sched_point("MPI_Win_flush_all"); rma_flush(w, -1); return 0; }
int MPI_Win_flush_local(int t, MPI_Win w) { WN(w); sched_point("MPI_Win_flush_local"); rma_flush_local(w, t); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { WN(w); sched_point("MPI_Win_flush_local"); rma_flush_local(w, -1); return 0; }
int MPI_Win_sync(MPI_Win w) { return 0; }
struct wl { win *w; int t, ex, me; }; static int c_wl(void *a) { struct wl *l = a; int n = CM(l->w->c)->n; if (l->w->excl[l->t] >= 0 && l->w->excl[l->t] != l->me) return 0; if (l->ex) for (int i = 0; i < n; i++) if (i != l->me && l->w->locked[i][l->t]) return 0; return 1; }
int MPI_Win_lock(int type, int t, int as, MPI_Win w) { win *x = WN(w); sched_point("MPI_Win_lock"); int me = wrank(w); if (x->locked[me][t]) fail("MPI_Win_lock: already locked"); struct wl l = { x, t, type == MPI_LOCK_EXCLUSIVE, me }; block_on(c_wl, &l, "MPI_Win_lock"); x->locked[me][t] = 1; if (l.ex) x->excl[t] = me; ev(mix(32, t)); ev(wmem_h[CM(x->c)->r[t]]); progress(); return 0; }
int MPI_Win_unlock(int t, MPI_Win w) { win *x = WN(w); sched_point("MPI_Win_unlock"); int me = wrank(w); if (!x->locked[me][t]) fail("MPI_Win_unlock: not locked"); rma_flush(w, t); x->locked[me][t] = 0; if (x->excl[t] == me) x->excl[t] = -1; progress(); return 0; }
int MPI_Win_lock_all(int as, MPI_Win w) { win *x = WN(w); sched_point("MPI_Win_lock_all"); int me = wrank(w), n = CM(x->c)->n; for (int t = 0; t < n; t++) { if (x->locked[me][t]) fail("MPI_Win_lock_all: already locked"); struct wl l = { x, t, 0, me }; block_on(c_wl, &l, "MPI_Win_lock_all"); x->locked[me][t] = 1; } return 0; }
int MPI_Win_unlock_all(MPI_Win w) { win *x = WN(w); sched_point("MPI_Win_unlock_all"); rma_flush(w, -1); int me = wrank(w), n = CM(x->c)->n; for (int t = 0; t < n; t++) x->locked[me][t] = 0; progress(); return 0; }
int MPI_Win_fence(int as, MPI_Win w) { win *x = WN(w); rma_flush(w, -1); int me; coll *s = coll_enter(x->c, O_FENCE, 0, 0, 0, 0, 0, &me); coll_wait(s); coll_exit(s); x->fenced[me] = 1; return 0; }
int MPI_Win_free(MPI_Win *w) { win *x = WN(*w); int r = wrank(*w); rma_flush(*w, -1); int me; coll *s = coll_enter(x->c, O_WINFREE, 0, 0, 0, 0, 0, &me); coll_wait(s); coll_exit(s); if (x->own[r]) free(x->base[r]); if (++x->nfreed == CM(x->c)->n) x->used = 0; *w = 0; return 0; }
int MPI_Win_get_group(MPI_Win w, MPI_Group *g) { win *x = WN(w); comm *m = CM(x->c); *g = new_grp(m->n, m->r); return 0; }

/* ------------------------------------------------------------------ environment */
int MPI_Init(int *a, char ***b) { rank_init[R_()] = 1; return 0; }
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { rank_init[R_()] = 1; *prov = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { *f = rank_init[R_()]; return 0; }
int MPI_Finalized(int *f) { *f = rank_fin[R_()]; return 0; }
int MPI_Finalize(void) { rank_fin[R_()] = 1; vlog("MPI_Finalize"); return 0; }
int sim_finalized(int r) { return rank_fin[r]; }
int sim_exited(int r) { return rank_exited[r]; }
int MPI_Abort(MPI_Comm c, int code) { vlog("MPI_Abort(%d)", code); if (expect_abort) finish(1, 0); fail("MPI_Abort(%d) on rank %d", code, R_()); return 0; }
double MPI_Wtime(void) { return 1000.0 + 1e-6 * ++clk; }
int MPI_Get_processor_name(char *b, int *n) { *n = sprintf(b, "node%d", nodeof[R_()]); return 0; }
int MPI_Error_string(int e, char *b, int *n) { *n = sprintf(b, "simulated MPI error %d", e); return 0; }
int MPI_Errhandler_set(MPI_Comm c, MPI_Errhandler e) { return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { return 0; }

int simw_gethostname(char *b, size_t n) { snprintf(b, n, "node%d", nodeof[R_()]); return 0; }
long simw_gethostid(void) { return 7000 + nodeof[R_()]; }
int simw_getpid(void) { return 1000 + R_(); }
int simw_usleep(unsigned u) { spin_yield("usleep"); return 0; }
unsigned simw_sleep(unsigned u) { spin_yield("sleep"); return 0; }
int simw_nanosleep(const struct timespec *a, struct timespec *b) { spin_yield("nanosleep"); return 0; }
int simw_sched_yield(void) { spin_yield("sched_yield"); return 0; }
int simw_pause(void) { spin_yield("pause"); return 0; }
long simw_time(long *t) { long v = 1700000000 + clk / 1000000; if (t) *t = v; return v; }
void simw_exit(int code) { fiber *f = cur; rank_exited[f->rank] = 1; vlog("exit(%d)", code); if (expect_abort) finish(1, 0); if (f->is_main && participant[f->rank]) { mains_done++; } if (code) fail("rank %d exits with status %d", f->rank, code);
  for (int i = 0; i < nF; i++) if (F[i].rank == f->rank && &F[i] != f && F[i].state != F_FREE) F[i].state = F_DONE; f->state = F_DONE; progress(); to_sched(); abort(); }
void simw__exit(int code) { simw_exit(code); }
void simw_abort(void) { if (expect_abort) finish(1, 0); fail("abort() on rank %d", R_()); }
void simw___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (expect_abort) finish(1, 0); const char *b = strrchr(f, '/'); fail("assertion failed on rank %d: %s (%s:%u)", R_(), e, b ? b + 1 : f, l); }

/* ------------------------------------------------------------------ shared memory */
typedef struct { char name[128]; int fd; long size; int linked, used; } shm;
typedef struct { char *a; long len, off; int sg, rank; } alias;
static shm SG[MAXSEG]; static int nSG; static alias AL[16384]; static int nAL; static int fd2sg[4096]; /* sg+1 */
static char *al_lo = (char *)-1, *al_hi = 0;
int simw_shm_open(const char *name, int fl, mode_t mode) { sched_point("shm_open"); int k; ev(40); for (k = 0; k < nSG; k++) if (SG[k].used && SG[k].linked && !strcmp(SG[k].name, name)) break;
  if (k < nSG) { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; } } else { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } for (k = 0; k < nSG; k++) if (!SG[k].used) break; if (k == MAXSEG) { errno = ENFILE; return -1; } if (k == nSG) nSG++; memset(&SG[k], 0, sizeof SG[k]); SG[k].used = SG[k].linked = 1; snprintf(SG[k].name, 128, "%s", name); SG[k].fd = memfd_create("sim", 0); if (SG[k].fd < 0) die("memfd"); }
  int fd = dup(SG[k].fd); if (fd < 0 || fd >= 4096) { errno = EMFILE; return -1; } fd2sg[fd] = k + 1; vlog("shm_open %s", name); progress(); return fd; }
int simw_shm_unlink(const char *name) { sched_point("shm_unlink"); for (int k = 0; k < nSG; k++) if (SG[k].used && SG[k].linked && !strcmp(SG[k].name, name)) { SG[k].linked = 0; progress(); return 0; } errno = ENOENT; return -1; }
int simw_ftruncate(int fd, off_t n) { if (fd >= 0 && fd < 4096 && fd2sg[fd]) { SG[fd2sg[fd] - 1].size = n; progress(); } if (fd >= 4096) return simio_ftruncate(fd, n); return ftruncate(fd, n); }
int simw_close(int fd) { if (fd >= 0 && fd < 4096 && fd2sg[fd]) { fd2sg[fd] = 0; return close(fd); } return simio_close(fd); }
void *simw_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { if (fd >= 0 && fd < 4096 && fd2sg[fd]) { int k = fd2sg[fd] - 1; sched_point("mmap"); if (off + (long)n > SG[k].size) { vlog("mmap beyond the end"); } char *p = mmap(0, n, pr, MAP_SHARED, fd, off); if (p == MAP_FAILED) return p; int i; for (i = 0; i < nAL; i++) if (!AL[i].a) break; if (i == nAL) { if (nAL == 16384) die("aliases"); nAL++; } AL[i] = (alias){ p, n, off, k, R_() }; if (p < al_lo) al_lo = p; if (p + n > al_hi) al_hi = p + n; vlog("mmap %s %ld bytes", SG[k].name, (long)n); return p; } return mmap(a, n, pr, fl, fd, off); }
int simw_munmap(void *a, size_t n) { for (int i = 0; i < nAL; i++) if (AL[i].a == a) { if (AL[i].len != (long)n) fail("munmap of %ld bytes, mapped %ld", (long)n, AL[i].len); AL[i].a = 0; return munmap(a, n); } if ((char *)a >= al_lo && (char *)a < al_hi) fail("munmap of an address that is not mapped"); return munmap(a, n); }
int simw_msync(void *a, size_t n, int f) { return 0; }
int sim_live_shm(void) { int n = 0; for (int k = 0; k < nSG; k++) if (SG[k].used && SG[k].linked) n++; return n; }
long sim_mapped(int r) { long n = 0; for (int i = 0; i < nAL; i++) if (AL[i].a && AL[i].rank == r) n++; return n; }
static void shm_after_fork(void) { /* give the child its own copy of every segment */
  for (int k = 0; k < nSG; k++) { if (!SG[k].used) continue; struct stat st; fstat(SG[k].fd, &st); int any = SG[k].linked; for (int i = 0; i < nAL; i++) if (AL[i].a && AL[i].sg == k) any = 1; if (!any) continue;
    int nf = memfd_create("sim", 0); if (nf < 0 || ftruncate(nf, st.st_size)) die("memfd copy");
    if (st.st_size) { char *o = mmap(0, st.st_size, PROT_READ, MAP_SHARED, SG[k].fd, 0); char *n = mmap(0, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, nf, 0); if (o == MAP_FAILED || n == MAP_FAILED) die("mmap copy");
      for (long q = 0; q < st.st_size; q += 4096) { long l = st.st_size - q < 4096 ? st.st_size - q : 4096; int z = 1; const long *w = (const long *)(o + q); for (long j = 0; j < l / 8; j++) if (w[j]) { z = 0; break; } if (l & 7) z = 0; if (!z) memcpy(n + q, o + q, l); }
      munmap(o, st.st_size); munmap(n, st.st_size); }
    for (int fd = 0; fd < 4096; fd++) if (fd2sg[fd] == k + 1) dup2(nf, fd);
    dup2(nf, SG[k].fd); close(nf);
    for (int i = 0; i < nAL; i++) if (AL[i].a && AL[i].sg == k) if (mmap(AL[i].a, AL[i].len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, SG[k].fd, AL[i].off) == MAP_FAILED) die("remap"); } }

/* ------------------------------------------------------------------ semaphores and threads: state lives in the object */
typedef struct { int magic, val; } ssem; /* in sem_t */
#define SMAG 0x53454d31
static struct { char name[128]; ssem *s[MAXR]; ssem *real; int linked, used; } NS[1024]; static int nNS;
int simw_sem_init(sem_t *s, int ps, unsigned v) { ssem *x = (ssem *)s; x->magic = SMAG; x->val = v; return 0; }
int simw_sem_destroy(sem_t *s) { ((ssem *)s)->magic = 0; return 0; }
sem_t *simw_sem_open(const char *name, int fl, ...) { sched_point("sem_open"); int k; for (k = 0; k < nNS; k++) if (NS[k].used && NS[k].linked && !strcmp(NS[k].name, name)) break; if (k < nNS) { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return SEM_FAILED; } } else { if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; } va_list a; va_start(a, fl); (void)va_arg(a, unsigned); unsigned v = va_arg(a, unsigned); va_end(a); if (nNS == 1024) fail("sem table"); k = nNS++; NS[k].used = NS[k].linked = 1; snprintf(NS[k].name, 128, "%s", name); NS[k].real = calloc(1, sizeof(sem_t)); NS[k].real->magic = SMAG; NS[k].real->val = v; } vlog("sem_open %s", name); progress(); return (sem_t *)NS[k].real; }
int simw_sem_close(sem_t *s) { return 0; }
int simw_sem_unlink(const char *name) { sched_point("sem_unlink"); for (int k = 0; k < nNS; k++) if (NS[k].used && NS[k].linked && !strcmp(NS[k].name, name)) { NS[k].linked = 0; progress(); return 0; } errno = ENOENT; return -1; }
int sim_live_sems(void) { int n = 0; for (int k = 0; k < nNS; k++) if (NS[k].used && NS[k].linked) n++; return n; }
static int c_sem(void *a) { return ((ssem *)a)->val > 0; }
static ssem *SM(sem_t *s) { ssem *x = (ssem *)s; if (x->magic != SMAG) fail("semaphore that is not initialised"); return x; }
int simw_sem_wait(sem_t *s) { ssem *x = SM(s); sched_point("sem_wait"); block_on(c_sem, x, "sem_wait"); x->val--; ev(41); progress(); return 0; }
int simw_sem_trywait(sem_t *s) { ssem *x = SM(s); sched_point("sem_trywait"); if (x->val <= 0) { spin_yield("sem_trywait"); errno = EAGAIN; return -1; } x->val--; progress(); return 0; }
int simw_sem_post(sem_t *s) { ssem *x = SM(s); sched_point("sem_post"); x->val++; ev(42); progress(); return 0; }
int simw_sem_getvalue(sem_t *s, int *v) { *v = SM(s)->val; return 0; }
typedef struct { int owner1, depth; } smx;
static int c_mx(void *a) { return ((smx *)a)->owner1 == 0; }
int simw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); return 0; }
int simw_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int simw_pthread_mutex_lock(pthread_mutex_t *m) { smx *x = (smx *)m; sched_point("pthread_mutex_lock"); if (x->owner1 == cur->id + 1) fail("pthread mutex locked twice by the same thread"); block_on(c_mx, x, "pthread_mutex_lock"); x->owner1 = cur->id + 1; ev(43); progress(); return 0; }
int simw_pthread_mutex_trylock(pthread_mutex_t *m) { smx *x = (smx *)m; sched_point("pthread_mutex_trylock"); if (x->owner1) return EBUSY; x->owner1 = cur->id + 1; progress(); return 0; }
int simw_pthread_mutex_unlock(pthread_mutex_t *m) { smx *x = (smx *)m; if (x->owner1 != cur->id + 1) fail("pthread mutex unlocked by a thread that does not hold it"); x->owner1 = 0; ev(44); progress(); sched_point("pthread_mutex_unlock"); return 0; }
int simw_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { fiber *f = new_fiber(R_(), fn, arg); *t = (pthread_t)(f->id + 1000); ev(45); progress(); sched_point("pthread_create"); return 0; }
static int c_join(void *a) { return ((fiber *)a)->state == F_DONE; }
int simw_pthread_join(pthread_t t, void **r) { fiber *f = &F[(long)t - 1000]; sched_point("pthread_join"); block_on(c_join, f, "pthread_join"); if (r) *r = f->ret; ev(46); return 0; }
int simw_pthread_detach(pthread_t t) { return 0; }
pthread_t simw_pthread_self(void) { return (pthread_t)(cur->id + 1000); }
void simw_pthread_exit(void *r) { cur->ret = r; cur->state = F_DONE; progress(); to_sched(); }

int simw_pthread_setaffinity_np(pthread_t t, size_t n, const void *c) { return 0; }
int simw_sched_setaffinity(int p, size_t n, const void *c) { return 0; }
void *simw_signal(int n, void *h) { return 0; }
int simw_sigaction(int n, const void *a, void *o) { if (o) memset(o, 0, sizeof(struct sigaction)); return 0; }
int simw_fstatfs(int fd, struct statfs *s) { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_bavail = s->f_bfree = s->f_blocks = 1l << 26; return 0; }

/* ------------------------------------------------------------------ memory-access preemption (objects compiled with -fsanitize=thread) */
static int in_shm(const void *a) { if ((char *)a < al_lo || (char *)a >= al_hi) return 0; for (int i = 0; i < nAL; i++) if (AL[i].a && (char *)a >= AL[i].a && (char *)a < AL[i].a + AL[i].len) return 1; return 0; }
static void acc_hook(void *a, int wr) { if (!tsan_on || !exploring || !cur) return; if (in_shm(a)) { cur->h = mix(cur->h, 50 + wr); if (wr) progress(); sched_point(wr ? "shared write" : "shared read"); } }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
#define TS(n) void __tsan_read##n(void *a) { acc_hook(a, 0); } void __tsan_write##n(void *a) { acc_hook(a, 1); } void __tsan_unaligned_read##n(void *a) { acc_hook(a, 0); } void __tsan_unaligned_write##n(void *a) { acc_hook(a, 1); } \
 void __tsan_volatile_read##n(void *a) { acc_hook(a, 0); } void __tsan_volatile_write##n(void *a) { acc_hook(a, 1); } void __tsan_unaligned_volatile_read##n(void *a) { acc_hook(a, 0); } void __tsan_unaligned_volatile_write##n(void *a) { acc_hook(a, 1); } void __tsan_read_write##n(void *a) { acc_hook(a, 1); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *a, size_t n) { acc_hook(a, 0); } void __tsan_write_range(void *a, size_t n) { acc_hook(a, 1); } void __tsan_vptr_update(void **a, void *b) {} void __tsan_vptr_read(void **a) {}
/* memcpy between ranks of a node: a scheduling point before, and one in the middle */
void *simw_memcpy(void *d, const void *s, size_t n) { if (exploring && (kinds >> K_MEM & 1) && cur && (in_shm(d) || in_shm(s))) { cur->h = mix(cur->h, 60); sched_point("memcpy of shared memory"); if (n >= 2) { size_t h = n / 2; memcpy(d, s, h); sched_point("middle of memcpy of shared memory"); memcpy((char *)d + h, (const char *)s + h, n - h); progress(); return d; } progress(); } return memcpy(d, s, n); }

/* ------------------------------------------------------------------ checked heap */
#define HM1 0x48454150u
#define HM2 0x4641494cu
typedef struct { size_t n; unsigned magic, rank; } hh;
static long heap_live[MAXR];
static int heap_fill = 1;
static const unsigned char can[8] = { 0xc3, 0x5a, 0x99, 0x17, 0xe1, 0x3c, 0x68, 0xb7 };
static void huge(char *p, size_t n) { if (n > 4 << 20) { uintptr_t a = ((uintptr_t)p + (2 << 20) - 1) & ~((2ul << 20) - 1), b = ((uintptr_t)p + n) & ~((2ul << 20) - 1); if (b > a) madvise((void *)a, b - a, MADV_HUGEPAGE); } }   /* keeps fork cheap */
void *simw_malloc(size_t n) { char *p = malloc(n + sizeof(hh) + 8); if (!p) return 0; huge(p, n); hh *h = (hh *)p; h->n = n; h->magic = HM1; h->rank = cur ? cur->rank : 0; heap_live[h->rank]++; p += sizeof(hh); if (heap_fill) memset(p, 0xa7, n > 1 << 20 ? 1 << 20 : n); memcpy(p + n, can, 8); return p; }
static hh *hcheck(void *q, const char *w) { hh *h = (hh *)((char *)q - sizeof(hh)); if (h->magic == HM2) fail("%s: block freed twice", w); if (h->magic != HM1) fail("%s: not a heap block, or its header was overwritten", w); if (memcmp((char *)q + h->n, can, 8)) fail("heap overrun: a block of %zu bytes was written past its end (found at %s)", h->n, w); return h; }
void simw_free(void *q) { if (!q) return; hh *h = hcheck(q, "free"); heap_live[h->rank]--; h->magic = HM2; if (heap_fill) memset(q, 0xd9, h->n > 1 << 18 ? 1 << 18 : h->n); free(h); }
void *simw_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; size_t n = a * b; if (n > 1 << 20) { char *p = calloc(1, n + sizeof(hh) + 8); if (!p) return 0; huge(p, n); hh *h = (hh *)p; h->n = n; h->magic = HM1; h->rank = cur ? cur->rank : 0; heap_live[h->rank]++; p += sizeof(hh); memcpy(p + n, can, 8); return p; } void *p = simw_malloc(n); if (p) memset(p, 0, n); return p; }
void *simw_realloc(void *q, size_t n) { if (!q) return simw_malloc(n); hh *h = hcheck(q, "realloc"); void *p = simw_malloc(n); if (!p) return 0; memcpy(p, q, h->n < n ? h->n : n); simw_free(q); return p; }
char *simw_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = simw_malloc(n); memcpy(p, s, n); return p; }
int simw_posix_memalign(void **o, size_t al, size_t n) { *o = simw_malloc(n); return *o ? 0 : ENOMEM; }
void *simw_memalign(size_t al, size_t n) { return simw_malloc(n); }
long sim_heap_live(int r) { return heap_live[r]; }
void sim_heap_check(void *p) { hcheck(p, "check"); }

/* ------------------------------------------------------------------ I/O with faults */
int simio_choose(int n, const char *w) { return choose(n, K_IO, w); }
void simio_fail(const char *w) { fail("%s", w); }
int simio_active(void) { return exploring && in_child; }
void simio_point(const char *w) { sched_point(w); }

/* ------------------------------------------------------------------ explorer */
static void lock(void) { while (__sync_lock_test_and_set(&S->lock, 1)) sched_yield(); }
static void unlock(void) { __sync_lock_release(&S->lock); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double t0;
static void child_run(task *t) { /* in the forked child */
  in_child = 1; T = t; tdev = 0; npos = 0; nsteps = 0; curcase = t->cas; begun = 1; exploring = 1; mains_done = 0; expect_abort = 0;
  memset(oracle, 0, 4 << 20);
  struct rlimit rl = { cpu_limit, cpu_limit + 2 }; setrlimit(RLIMIT_CPU, &rl); struct rlimit nc = { 0, 0 }; setrlimit(RLIMIT_CORE, &nc);
  if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
  shm_after_fork(); simio_after_fork(); progress();
  int e = run_phase();
  if (e == 2) finish(1, 0);
  finish(2, "INTERNAL bad phase end");
}
static void run_task(task *t, result *r) {
  r->status = 0; r->msg[0] = 0; r->nch = 0; r->steps = 0; r->over = 0;
  pid_t p = fork();
  if (p < 0) die("fork: %s", strerror(errno));
  if (p == 0) { R = r; child_run(t); _exit(3); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == 0) { r->status = 2; if (WIFSIGNALED(st)) snprintf(r->msg, sizeof r->msg, WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "no termination within %d s of CPU time" : "killed by signal %d", WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? cpu_limit : WTERMSIG(st)); else snprintf(r->msg, sizeof r->msg, "execution ended with exit status %d", WEXITSTATUS(st));
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) __sync_fetch_and_add(&S->timeouts, 1); r->nch = 0; }
}
static void push(task *t) { lock(); if (S->ntask < S->cap) stackT[S->ntask++] = *t; else S->truncated++; unlock(); }
static void worker(int w, result *r) {
  result *r2 = mmap(0, sizeof *r2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (;;) {
    task t; int got = 0;
    lock(); if (S->stop) { unlock(); break; } if (S->ntask) { t = stackT[--S->ntask]; S->active++; got = 1; } int act = S->active; unlock();
    if (!got) { if (!act) break; usleep(200); continue; }
    run_task(&t, r);
    long ex = __sync_add_and_fetch(&S->execs, 1); __sync_fetch_and_add(&S->steps, r->steps); __sync_fetch_and_add(&S->devused[t.used > MAXDEV ? MAXDEV : t.used], 1);
    __sync_fetch_and_add(&S->sumch, r->nch);
    if (r->status == 1 && hs_insert(tset, r->tracehash)) __sync_fetch_and_add(&S->traces, 1);
    if (r->over && budget > 0) __sync_fetch_and_add(&S->overflow, 1);
    if (r->nch > S->maxch) S->maxch = r->nch;
    if (r->status == 2) {
      int known = 0; for (int i = 0; i < S->nviol && i < 256; i++) if (!strcmp(S->v[i].msg, r->msg)) known = 1;
      if (!known) { run_task(&t, r2); int same = r2->status == 2;
        lock(); for (int i = 0; i < S->nviol && i < 256; i++) if (!strcmp(S->v[i].msg, r->msg)) known = 1; if (!known && S->nviol < 256) { viol *v = &S->v[S->nviol++]; strcpy(v->msg, r->msg); v->t = t; v->confirmed = same; if (!same) S->unconf++; } if (S->nviol >= 64 || S->timeouts > 12) S->stop = 1; unlock(); }
    } 
    { long lo = t.ndev ? t.d[t.ndev - 1].pos + 1 : 0, hi = r->nch < MAXCH ? r->nch : MAXCH;
      /* push in reverse so that early deviations are explored first */
      for (long p = hi - 1; p >= lo; p--) { int fr = r->ch[p].kind == K_PICK; if (!fr && t.used >= budget) continue; if (t.ndev >= MAXDEV) { __sync_fetch_and_add(&S->truncated, 1); continue; }
        for (int a = r->ch[p].n - 1; a >= 1; a--) { task c = t; c.d[c.ndev++] = (dev_t_){ p, a, !fr }; c.used += !fr; push(&c); } } }
    lock(); S->active--; if (ex >= max_exec || now() - t0 > tlimit) { if (S->ntask || S->active) S->truncated++; S->stop = 1; } unlock();
  }
  _exit(0);
}
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fputc(' ', f); else fputc(*s, f); } fputc('"', f); }
static void task_str(task *t, char *b) { int o = sprintf(b, "%ld", t->cas); for (int i = 0; i < t->ndev; i++) o += sprintf(b + o, ":%u.%u", t->d[i].pos, t->d[i].alt); }
typedef void (*scen_fn)(int, int);
static scen_fn scen[MAXR];
static void *rank_main(void *a) { int r = (int)(intptr_t)a; scen[r](r, NP); vlog("scen_main done"); return 0; }

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) { setenv("SIM_NOPERS", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  const char *dir = "/tmp"; long cap = 4000000;
  for (int i = 1; i < argc; i++) {
#define A(s) (!strcmp(argv[i], s) && i + 1 < argc)
    if (A("--so")) SO = argv[++i]; else if (A("--np")) NP = atoi(argv[++i]); else if (A("--scenario")) SCEN = argv[++i]; else if (A("--out")) OUT = argv[++i];
    else if (A("--nodes")) { char *s = argv[++i]; for (int k = 0; k < MAXR && *s; k++) { nodeof[k] = strtol(s, &s, 10); if (*s == ',') s++; } }
    else if (A("--budget")) budget = atoi(argv[++i]); else if (A("--eager")) eager_lim = atol(argv[++i]); else if (A("--rma")) rma_mode = atoi(argv[++i]); else if (A("--workers")) NW = atoi(argv[++i]);
    else if (A("--kinds")) kinds = strtoul(argv[++i], 0, 0); else if (A("--max-exec")) max_exec = atol(argv[++i]); else if (A("--max-steps")) max_steps = atol(argv[++i]); else if (A("--time")) tlimit = atof(argv[++i]);
    else if (A("--env")) { char *s = strdup(argv[++i]); char *e = strchr(s, '='); *e = 0; setenv(s, e + 1, 1); } else if (A("--opt")) { char *s = strdup(argv[++i]); char *e = strchr(s, '='); *e = 0; optk[nopt] = s; optv[nopt++] = e + 1; }
    else if (A("--dir")) dir = argv[++i]; else if (A("--replay")) REPLAY = argv[++i]; else if (A("--tsan")) tsan_on = atoi(argv[++i]); else if (A("--cases")) { sscanf(argv[++i], "%ld-%ld", &case_lo, &case_hi); case_hi++; }
    else if (A("--cpu")) cpu_limit = atoi(argv[++i]); else if (!strcmp(argv[i], "-v")) verbose = 1; else die("bad argument %s", argv[i]); }
  if (!SO) die("--so needed"); if (NP > MAXR) die("np");
  t0 = now(); dt_init(); oracle = mmap(0, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(&C[1], 0, sizeof C[1]); C[1].used = 1; C[1].n = NP; for (int i = 0; i < NP; i++) C[1].r[i] = i;
  char tmp[512]; snprintf(tmp, sizeof tmp, "%s/simXXXXXX", dir); if (!mkdtemp(tmp)) die("mkdtemp %s", tmp);
  simio_init(tmp);
  void *hd[MAXR];
  for (int r = 0; r < NP; r++) { char p[700]; snprintf(p, sizeof p, "%s/rank%d.so", tmp, r); int in = open(SO, O_RDONLY); if (in < 0) die("cannot read %s", SO); int out = open(p, O_WRONLY | O_CREAT, 0700); char *b = malloc(1 << 20); ssize_t n; while ((n = read(in, b, 1 << 20)) > 0) if (write(out, b, n) != n) die("copy"); free(b); close(in); close(out); }
  for (int r = 0; r < NP; r++) { char p[700]; snprintf(p, sizeof p, "%s/rank%d.so", tmp, r); hd[r] = dlopen(p, RTLD_LAZY | RTLD_LOCAL); if (!hd[r]) die("%s", dlerror()); scen[r] = (scen_fn)dlsym(hd[r], "scen_main"); if (!scen[r]) die("no scen_main"); unlink(p); }
  expected = NP;
  for (int r = 0; r < NP; r++) { fiber *f = new_fiber(r, rank_main, (void *)(intptr_t)r); f->is_main = 1; }
  if (!verbose) { fflush(0); }
  int so = dup(1), se = dup(2); if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  struct rlimit rl0, rl1; getrlimit(RLIMIT_CPU, &rl0); rl1 = rl0; rl1.rlim_cur = 60; setrlimit(RLIMIT_CPU, &rl1);
  long ms = max_steps; max_steps = 30000000; int v = verbose; if (REPLAY) { verbose = 0; } else if (v == 1) verbose = 0; (void)se;
  int e = run_phase(); max_steps = ms; verbose = v; setrlimit(RLIMIT_CPU, &rl0);
  fflush(0); dup2(so, 1);
  if (e != 1) die("scenario %s never reached sim_begin", SCEN);
  nsteps = 0;
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); S->cap = cap;
  stackT = mmap(0, cap * sizeof(task), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hset = mmap(0, 8ul << HBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); tset = mmap(0, 8ul << HBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cur = 0;
  if (REPLAY) { task t; memset(&t, 0, sizeof t); char *s = (char *)REPLAY; t.cas = strtol(s, &s, 10); while (*s == ':') { s++; t.d[t.ndev].pos = strtol(s, &s, 10); s++; t.d[t.ndev++].alt = strtol(s, &s, 10); }
    result *r = mmap(0, sizeof *r, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); run_task(&t, r); printf("REPLAY %s: %s %s\n", REPLAY, r->status == 1 ? "pass" : "FAIL", r->msg); simio_cleanup(); rmdir(tmp); return r->status == 1 ? 0 : 1; }
  if (case_hi > ncases) case_hi = ncases;
  for (long c = case_hi - 1; c >= case_lo; c--) { task t; memset(&t, 0, sizeof t); t.cas = c; push(&t); }
  result *rs[64]; for (int w = 0; w < NW; w++) rs[w] = mmap(0, sizeof(result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pid_t pw[64]; for (int w = 0; w < NW; w++) { pw[w] = fork(); if (pw[w] == 0) worker(w, rs[w]); }
  int bad = 0; for (int w = 0; w < NW; w++) { int st; waitpid(pw[w], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  if (bad) die("a worker died");
  FILE *f = OUT ? fopen(OUT, "w") : stdout;
  fprintf(f, "{\"scenario\": "); jstr(f, SCEN); fprintf(f, ", \"np\": %d, \"budget\": %d, \"cases\": %ld, \"executions\": %ld, \"transitions\": %ld, \"states\": %ld, \"traces\": %ld, \"max_choices\": %ld, \"choice_points\": %ld, \"truncated\": %ld, \"overflow\": %ld, \"unconfirmed\": %ld, \"timeouts\": %ld, \"wall\": %.2f, \"counters\": [", NP, budget, case_hi - case_lo, S->execs, S->steps, S->states, S->traces, S->maxch, S->sumch, S->truncated, S->overflow, S->unconf, S->timeouts, now() - t0);
  for (int i = 0; i < 16; i++) fprintf(f, "%s%ld", i ? ", " : "", S->counters[i]); fprintf(f, "], \"by_deviations\": ["); for (int i = 0; i <= MAXDEV && i <= budget; i++) fprintf(f, "%s%ld", i ? ", " : "", S->devused[i]);
  fprintf(f, "], \"violations\": ["); for (int i = 0; i < S->nviol && i < 256; i++) { char b[400]; task_str(&S->v[i].t, b); fprintf(f, "%s{\"msg\": ", i ? ", " : ""); jstr(f, S->v[i].msg); fprintf(f, ", \"task\": \"%s\", \"confirmed\": %s}", b, S->v[i].confirmed ? "true" : "false"); } fprintf(f, "]}\n"); if (OUT) fclose(f);
  simio_cleanup(); rmdir(tmp);
  return S->nviol ? 1 : 0;
}
